// Written by tools/gen_derive.py. Do not edit.
#![allow(clippy::all, unused, dead_code, non_camel_case_types)]
use std::collections::*;
use std::sync::Arc;

use mccore::model::*;
use oasis_cbor::{Decode, Encode, Value};
use mctyped::marked;
use oasis_cbor::DecodeError;
use mctyped::schema::*;
use mctyped::subj::*;

pub fn ser_num(x: &u16) -> String {
    x.to_string()
}
pub fn de_num(s: String) -> Result<u16, DecodeError> {
    s.parse().map_err(|_| DecodeError::UnexpectedIntegerSize)
}
fn to_num(d: &D) -> R {
    match d {
        D::Str(s) => match s.parse::<u16>() {
            Ok(n) => R::Ok(D::Int(n as i128)),
            Err(_) => R::Err(SIZE),
        },
        _ => panic!(),
    }
}
pub fn num() -> Codec {
    Codec { wire: Ty::Str, enc: |d| D::Str(d_int(d).to_string()), dec: to_num }
}
pub fn ser_pos(x: &u16) -> Option<String> {
    if *x == 0 { None } else { Some(x.to_string()) }
}
pub fn de_pos(s: Option<String>) -> Result<u16, DecodeError> {
    s.map_or(Ok(0), de_num)
}
/// Zero as nothing.
pub fn pos() -> Codec {
    Codec {
        wire: Ty::Opt(Arc::new(Ty::Str)),
        enc: |d| if d_int(d) == 0 { D::None } else { D::Some(Box::new(D::Str(d_int(d).to_string()))) },
        dec: |d| match d {
            D::Some(d) => to_num(d),
            _ => R::Ok(D::Int(0)),
        },
    }
}
pub fn ser_clamp(x: &u8) -> u8 {
    (*x).min(100)
}
pub fn clamp() -> Codec {
    Codec { wire: Ty::Uint(8), enc: |d| D::Int(d_int(d).min(100)), dec: |d| R::Ok(d.clone()) }
}
pub fn de_inc(x: u8) -> Result<u8, DecodeError> {
    x.checked_add(1).ok_or(DecodeError::UnexpectedIntegerSize)
}
pub fn inc() -> Codec {
    Codec { wire: Ty::Uint(8), enc: |d| d.clone(), dec: |d| if d_int(d) < 255 { R::Ok(D::Int(d_int(d) + 1)) } else { R::Err(SIZE) } }
}
/// Without a default to start from.
pub fn ser_wrap(x: &Vec<u8>) -> EN {
    match x.len() {
        0 => EN::Nil,
        n => EN::Num(n as i32),
    }
}
pub fn de_wrap(e: EN) -> Result<Vec<u8>, DecodeError> {
    match e {
        EN::Nil => Ok(vec![]),
        EN::Num(n) if n > 0 && n < 300 => Ok(vec![1; n as usize]),
        _ => Err(DecodeError::UnexpectedType),
    }
}
pub fn wrap() -> Codec {
    Codec {
        wire: EN::ty(),
        enc: |d| match d {
            D::Bytes(b) if b.is_empty() => D::Var(0, vec![]),
            D::Bytes(b) => D::Var(1, vec![D::Int(b.len() as i128)]),
            _ => panic!(),
        },
        dec: |d| match d {
            D::Var(0, _) => R::Ok(D::Bytes(vec![])),
            D::Var(1, v) if d_int(&v[0]) > 0 && d_int(&v[0]) < 300 => R::Ok(D::Bytes(vec![1; d_int(&v[0]) as usize])),
            _ => R::Err(TYPE),
        },
    }
}
/// Under a name of its own.
pub fn ser_under(x: &u8) -> BTreeMap<String, u8> {
    [("under".to_string(), *x)].into_iter().collect()
}
pub fn de_under(m: BTreeMap<String, u8>) -> Result<u8, DecodeError> {
    match m.get("under") {
        Some(x) if m.len() == 1 => Ok(*x),
        _ => Err(DecodeError::MissingField),
    }
}
pub fn under() -> Codec {
    Codec {
        wire: Ty::Map(Arc::new(Ty::Str), Arc::new(Ty::Uint(8))),
        enc: |d| D::Map(vec![(D::Str("under".into()), d.clone())]),
        dec: |d| match d {
            D::Map(m) if m.len() == 1 && m[0].0 == D::Str("under".into()) => R::Ok(m[0].1.clone()),
            _ => R::Err(MISSING),
        },
    }
}
pub fn is_seven(x: &u8) -> bool {
    *x == 7
}
fn d_int(d: &D) -> i128 {
    match d {
        D::Int(n) => *n,
        _ => panic!(),
    }
}
#[derive(Encode, Decode)]
pub enum EN {
    Nil,
    Num(i32),
    Zz,
}
impl Subj for EN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Nil"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Num"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i32 as Subj>::ty())] },
            VariantTy { key: t("Zz"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EN::Nil => D::Var(0, vec![]),
            EN::Num(x0) => D::Var(1, vec![x0.to_d()]),
            EN::Zz => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EN::Nil,
            1 => EN::Num(Subj::from_d(&v[0])),
            2 => EN::Zz,
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EN {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub struct NS { #[cbor(optional)] pub q: u8, #[cbor(optional)] pub p: Option<String> }
impl Subj for NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <u8 as Subj>::ty()).opt(), fld(t("p"), <Option<String> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NS { q: x0, p: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NS { q: Subj::from_d(&v[0]), p: Subj::from_d(&v[1]) }
    }
}
impl Default for NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct NM { pub p: u8, pub k: String }
impl Subj for NM {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("p"), <u8 as Subj>::ty()), fld(t("k"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NM".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NM { p: x0, k: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NM { p: Subj::from_d(&v[0]), k: Subj::from_d(&v[1]) }
    }
}
impl Default for NM {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct TW(pub Option<u8>);
impl Subj for TW {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TW".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TW(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TW(Subj::from_d(&v[0]))
    }
}
impl Default for TW {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct UN;
impl Subj for UN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "UN".into(), shape: Shape::Unit, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let UN = self;
        D::Seq(vec![])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        UN
    }
}
impl Default for UN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AR { pub x: u8, pub y: bool }
impl Subj for AR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("x"), <u8 as Subj>::ty()), fld(t("y"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AR".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AR { x: x0, y: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AR { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) }
    }
}
impl Default for AR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct ND { pub x: u8 }
impl Subj for ND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("x"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "ND".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let ND { x: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        ND { x: Subj::from_d(&v[0]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum ED {
    First,
    Second(u8),
    #[cbor(rename = 3)] Third,
}
impl Subj for ED {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ED".into(), tag: None, untagged: false, default: Some(D::Var(2, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("First"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Second"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(3), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ED::First => D::Var(0, vec![]),
            ED::Second(x0) => D::Var(1, vec![x0.to_d()]),
            ED::Third => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ED::First,
            1 => ED::Second(Subj::from_d(&v[0])),
            2 => ED::Third,
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for ED {
    fn default() -> Self {
        Self::from_d(&D::Var(2, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum EA {
    Ea,
    Eb(u8),
    #[cbor(rename = 9)] Ec,
}
impl Subj for EA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Ea"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Eb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(9), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EA::Ea => D::Var(0, vec![]),
            EA::Eb(x0) => D::Var(1, vec![x0.to_d()]),
            EA::Ec => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EA::Ea,
            1 => EA::Eb(Subj::from_d(&v[0])),
            2 => EA::Ec,
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EA {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "kind")]
pub enum EB {
    Ta { s: u8, t: bool },
    Tb,
}
impl Subj for EB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EB".into(), tag: Some(t("kind")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Ta"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("s"), <u8 as Subj>::ty()), fld(t("t"), <bool as Subj>::ty())] },
            VariantTy { key: t("Tb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EB::Ta { s: x0, t: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            EB::Tb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EB::Ta { s: Subj::from_d(&v[0]), t: Subj::from_d(&v[1]) },
            1 => EB::Tb,
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EB {
    fn default() -> Self {
        Self::from_d(&D::Var(1, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum EX {
    Xa(String),
    #[cbor(embed)] In(EA),
    Xb,
}
impl Subj for EX {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EX".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Xa"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("In"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Xb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EX::Xa(x0) => D::Var(0, vec![x0.to_d()]),
            EX::In(x0) => D::Var(1, vec![x0.to_d()]),
            EX::Xb => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EX::Xa(Subj::from_d(&v[0])),
            1 => EX::In(Subj::from_d(&v[0])),
            2 => EX::Xb,
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EX {
    fn default() -> Self {
        Self::from_d(&D::Var(2, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "inner")]
pub enum TE {
    I { deep: u8 },
    J,
}
impl Subj for TE {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TE".into(), tag: Some(t("inner")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("I"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("deep"), <u8 as Subj>::ty())] },
            VariantTy { key: t("J"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TE::I { deep: x0 } => D::Var(0, vec![x0.to_d()]),
            TE::J => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TE::I { deep: Subj::from_d(&v[0]) },
            1 => TE::J,
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for TE {
    fn default() -> Self {
        Self::from_d(&D::Var(1, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit {
    Va,
}
impl Subj for E_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText {
    #[cbor(rename = "n0")] Va,
}
impl Subj for E_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum {
    #[cbor(rename = 7)] Va,
}
impl Subj for E_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc {
    Va = 1,
}
impl Subj for E_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr {
    Va = -(1 << 8),
}
impl Subj for E_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct {
    #[cbor(as_struct)] Va,
}
impl Subj for E_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8 {
    Va(u8),
}
impl Subj for E_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr {
    #[cbor(rename = 7)] Va(String),
}
impl Subj for E_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt {
    Va(Option<u8>),
}
impl Subj for E_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS {
    Va(NS),
}
impl Subj for E_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
}
impl Subj for E_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup {
    Va(u8, String),
}
impl Subj for E_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0 {
    Va(),
}
impl Subj for E_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0::Va() => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0::Va(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named {
    Va { bb: u8, a: Option<String> },
}
impl Subj for E_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0 {
    Va {  },
}
impl Subj for E_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0::Va {  } => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0::Va {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
}
impl Subj for E_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit {
    #[cbor(skip)] Va,
}
impl Subj for E_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew {
    #[cbor(skip)] Va(u8),
}
impl Subj for E_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA {
    #[cbor(embed)] Va(EA),
}
impl Subj for E_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB {
    #[cbor(embed)] Va(EB),
}
impl Subj for E_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN {
    Va(EN),
}
impl Subj for E_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmS {
    #[cbor(embed)] Va(NM),
}
impl Subj for E_EmS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmS::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmS::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmX {
    #[cbor(embed)] Va(EX),
}
impl Subj for E_EmX {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmX".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmX::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmX::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNamed {
    #[cbor(skip)] Va { bb: u8, a: Option<String> },
}
impl Subj for E_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNamed".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNamed::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNamed::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SEmA {
    #[cbor(embed, skip)] Va(EA),
}
impl Subj for E_SEmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SEmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SEmA::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SEmA::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SEmB {
    #[cbor(skip, embed)] Va(EB),
}
impl Subj for E_SEmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SEmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SEmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SEmB::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_SDisc {
    #[cbor(skip)] Va = 5,
}
impl Subj for E_SDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(5)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SDisc::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SDisc::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SRen {
    #[cbor(skip, rename = 7)] Va,
}
impl Subj for E_SRen {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SRen".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SRen::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SRen::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SStruct {
    #[cbor(skip, as_struct)] Va,
}
impl Subj for E_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SStruct::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SStruct::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_STup {
    #[cbor(skip)] Va(u8, u8),
}
impl Subj for E_STup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_STup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_STup::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_STup::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SArr {
    #[cbor(as_array, skip)] Va { bb: u8, a: Option<String> },
}
impl Subj for E_SArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SArr::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SArr::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNone {
    #[cbor(skip)] Va(Option<u8>),
}
impl Subj for E_SNone {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNone".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNone::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNone::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCod {
    Va { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] c: u16, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] b: u16, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] a: Vec<u8> },
}
impl Subj for E_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCod".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("c"), <u16 as Subj>::ty()).coded(num()), fld(t("b"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCod::Va { c: x0, b: x1, a: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCod::Va { c: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TCod {
    Va(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16, u8),
}
impl Subj for E_TCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TCod".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TCod::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TCod::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSk1 {
    Va(#[cbor(skip)] u8, u16),
}
impl Subj for E_TSk1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSk1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).skipped(), fld(NULL, <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSk1::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSk1::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCNum {
    Va(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16),
}
impl Subj for E_NCNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCNum::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCPos {
    Va(#[cbor(serialize_with = "ser_pos", deserialize_with = "de_pos")] u16),
}
impl Subj for E_NCPos {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCPos".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(pos())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCPos::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCPos::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCSer {
    Va(#[cbor(serialize_with = "ser_clamp")] u8),
}
impl Subj for E_NCSer {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCSer".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCSer::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCSer::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCDe {
    Va(#[cbor(deserialize_with = "de_inc")] u8),
}
impl Subj for E_NCDe {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCDe".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(inc())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCDe::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCDe::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCWrap {
    Va(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] Vec<u8>),
}
impl Subj for E_NCWrap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCWrap".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCWrap::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCWrap::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCUnder {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for E_NCUnder {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCUnder".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCUnder::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCUnder::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NSkp {
    Va(#[cbor(skip)] u32),
}
impl Subj for E_NSkp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NSkp".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u32 as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NSkp::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NSkp::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NSkN {
    #[cbor(rename = 7)] Va(#[cbor(skip)] NS),
}
impl Subj for E_NSkN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NSkN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NSkN::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NSkN::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmC {
    #[cbor(embed)] Va(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] Vec<u8>),
}
impl Subj for E_EmC {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmC".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmC::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmC::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmD {
    #[cbor(embed)] Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for E_EmD {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmD".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmD::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmD::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnit {
    Va(()),
}
impl Subj for E_NUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <() as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnit::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVal {
    Va(Value),
}
impl Subj for E_NVal {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVal".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Value as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVal::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVal::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUN {
    Va(UN),
}
impl Subj for E_NUN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <UN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUN::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUN::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NND {
    Va(ND),
}
impl Subj for E_NND {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NND".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <ND as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NND::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NND::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NTW {
    Va(TW),
}
impl Subj for E_NTW {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NTW".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TW as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NTW::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NTW::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMap {
    Va(BTreeMap<u8, String>),
}
impl Subj for E_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMap".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<u8, String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMap::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVecNS {
    Va(Vec<NS>),
}
impl Subj for E_NVecNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVecNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<NS> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVecNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVecNS::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NTup {
    Va((u8, bool)),
}
impl Subj for E_NTup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NTup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(u8, bool) as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NTup::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NTup::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NBig {
    Va(u128),
}
impl Subj for E_NBig {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NBig".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u128 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NBig::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NBig::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UUnkS {
    #[cbor(as_struct, allow_unknown)] Va,
}
impl Subj for E_UUnkS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UUnkS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UUnkS::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UUnkS::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0Unk {
    #[cbor(allow_unknown)] Va {  },
}
impl Subj for E_N0Unk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0Unk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0Unk::Va {  } => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0Unk::Va {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr0 {
    #[cbor(as_array)] Va {  },
}
impl Subj for E_NArr0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr0::Va {  } => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr0::Va {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TUnk {
    #[cbor(allow_unknown)] Va(u8, u8),
}
impl Subj for E_TUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TUnk::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TUnk::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_RStruct {
    #[cbor(as_struct, rename = 7)] Va,
}
impl Subj for E_RStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RStruct::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RStruct::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_URText {
    #[cbor(rename = "renamed_variant_of_24_bytes_or_more")] Va { bb: u8, a: Option<String> },
}
impl Subj for E_URText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_URText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("renamed_variant_of_24_bytes_or_more"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_URText::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_URText::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NRen {
    Va { #[cbor(rename = "a")] b: u8, #[cbor(rename = "b")] a: String, #[cbor(rename = 1)] c: bool },
}
impl Subj for E_NRen {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NRen".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty()), fld(t("b"), <String as Subj>::ty()), fld(M::U(1), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NRen::Va { b: x0, a: x1, c: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NRen::Va { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Fu8 {
    Va { g: u8, e: u8 },
}
impl Subj for E_Fu8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Fu8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Fu8::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Fu8::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Qu8 {
    Va(u8, u8),
}
impl Subj for E_Qu8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Qu8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Qu8::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Qu8::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FStr {
    Va { g: String, e: u8 },
}
impl Subj for E_FStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <String as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FStr::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FStr::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QStr {
    Va(String, u8),
}
impl Subj for E_QStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QStr::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QStr::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FOpt {
    Va { g: Option<u16>, e: u8 },
}
impl Subj for E_FOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Option<u16> as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FOpt::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FOpt::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QOpt {
    Va(Option<u16>, u8),
}
impl Subj for E_QOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u16> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QOpt::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QOpt::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FOOpt {
    Va { #[cbor(optional)] g: Option<u8>, e: u8 },
}
impl Subj for E_FOOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FOOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Option<u8> as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FOOpt::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FOOpt::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QOOpt {
    Va(#[cbor(optional)] Option<u8>, u8),
}
impl Subj for E_QOOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QOOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QOOpt::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QOOpt::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FONum {
    Va { #[cbor(optional)] g: u64, e: u8 },
}
impl Subj for E_FONum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FONum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u64 as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FONum::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FONum::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QONum {
    Va(#[cbor(optional)] u64, u8),
}
impl Subj for E_QONum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QONum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u64 as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QONum::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QONum::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FOVec {
    Va { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] g: Vec<u8>, e: u8 },
}
impl Subj for E_FOVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FOVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FOVec::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FOVec::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FSkip {
    Va { #[cbor(skip)] g: u32, e: u8 },
}
impl Subj for E_FSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u32 as Subj>::ty()).skipped(), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FSkip::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FSkip::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QSkip {
    Va(#[cbor(skip)] u32, u8),
}
impl Subj for E_QSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QSkip::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QSkip::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FRText {
    Va { #[cbor(rename = "q")] g: i8, e: u8 },
}
impl Subj for E_FRText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FRText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FRText::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FRText::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QRText {
    Va(#[cbor(rename = "q")] i8, u8),
}
impl Subj for E_QRText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QRText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QRText::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QRText::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FRNum {
    Va { #[cbor(rename = 7)] g: i16, e: u8 },
}
impl Subj for E_FRNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FRNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FRNum::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FRNum::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QRNum {
    Va(#[cbor(rename = 7)] i16, u8),
}
impl Subj for E_QRNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QRNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(7), <i16 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QRNum::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QRNum::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FRLong {
    Va { #[cbor(rename = "a_field_name_of_at_leas")] g: bool, e: u8 },
}
impl Subj for E_FRLong {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FRLong".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FRLong::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FRLong::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QRLong {
    Va(#[cbor(rename = "a_field_name_of_at_leas")] bool, u8),
}
impl Subj for E_QRLong {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QRLong".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QRLong::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QRLong::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FWith {
    Va { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] g: u16, e: u8 },
}
impl Subj for E_FWith {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FWith".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u16 as Subj>::ty()).coded(num()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FWith::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FWith::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QWith {
    Va(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16, u8),
}
impl Subj for E_QWith {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QWith".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QWith::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QWith::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FOWith {
    Va { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] g: u16, e: u8 },
}
impl Subj for E_FOWith {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FOWith".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FOWith::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FOWith::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QOWith {
    Va(#[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] u16, u8),
}
impl Subj for E_QOWith {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QOWith".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).opt().coded(pos()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QOWith::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QOWith::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FSer {
    Va { #[cbor(serialize_with = "ser_clamp")] g: u8, e: u8 },
}
impl Subj for E_FSer {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FSer".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()).coded(clamp()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FSer::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FSer::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QSer {
    Va(#[cbor(serialize_with = "ser_clamp")] u8, u8),
}
impl Subj for E_QSer {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QSer".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QSer::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QSer::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FDe {
    Va { #[cbor(deserialize_with = "de_inc")] g: u8, e: u8 },
}
impl Subj for E_FDe {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FDe".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()).coded(inc()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FDe::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FDe::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QDe {
    Va(#[cbor(deserialize_with = "de_inc")] u8, u8),
}
impl Subj for E_QDe {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QDe".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(inc()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QDe::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QDe::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FVal {
    Va { g: Value, e: u8 },
}
impl Subj for E_FVal {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FVal".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Value as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FVal::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FVal::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QVal {
    Va(Value, u8),
}
impl Subj for E_QVal {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QVal".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Value as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QVal::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QVal::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FNS {
    Va { g: NS, e: u8 },
}
impl Subj for E_FNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <NS as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FNS::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FNS::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QNS {
    Va(NS, u8),
}
impl Subj for E_QNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QNS::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QNS::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FONS {
    Va { #[cbor(optional)] g: NS, e: u8 },
}
impl Subj for E_FONS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FONS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <NS as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FONS::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FONS::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QONS {
    Va(#[cbor(optional)] NS, u8),
}
impl Subj for E_QONS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QONS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QONS::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QONS::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FEN {
    Va { g: EN, e: u8 },
}
impl Subj for E_FEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <EN as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FEN::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FEN::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QEN {
    Va(EN, u8),
}
impl Subj for E_QEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QEN::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QEN::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FORNum {
    Va { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] g: u8, e: u8 },
}
impl Subj for E_FORNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FORNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FORNum::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FORNum::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_Unit {
    Va,
    Vb,
}
impl Subj for E_Unit_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_Unit::Va => D::Var(0, vec![]),
            E_Unit_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_Unit::Va,
            1 => E_Unit_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_UText {
    Va,
    #[cbor(rename = "")] Vb,
}
impl Subj for E_Unit_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_UText::Va => D::Var(0, vec![]),
            E_Unit_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_UText::Va,
            1 => E_Unit_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_UNum {
    Va,
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_Unit_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_UNum::Va => D::Var(0, vec![]),
            E_Unit_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_UNum::Va,
            1 => E_Unit_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_Unit_UDisc {
    Va,
    Vb = 2,
}
impl Subj for E_Unit_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_UDisc::Va => D::Var(0, vec![]),
            E_Unit_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_UDisc::Va,
            1 => E_Unit_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_Unit_UExpr {
    Va,
    Vb = 41 * 100 + 23,
}
impl Subj for E_Unit_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_UExpr::Va => D::Var(0, vec![]),
            E_Unit_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_UExpr::Va,
            1 => E_Unit_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_UStruct {
    Va,
    #[cbor(as_struct)] Vb,
}
impl Subj for E_Unit_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_UStruct::Va => D::Var(0, vec![]),
            E_Unit_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_UStruct::Va,
            1 => E_Unit_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_NU8 {
    Va,
    Vb(u8),
}
impl Subj for E_Unit_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_NU8::Va => D::Var(0, vec![]),
            E_Unit_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_NU8::Va,
            1 => E_Unit_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_NStr {
    Va,
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_Unit_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_NStr::Va => D::Var(0, vec![]),
            E_Unit_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_NStr::Va,
            1 => E_Unit_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_NOpt {
    Va,
    Vb(Option<u8>),
}
impl Subj for E_Unit_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_NOpt::Va => D::Var(0, vec![]),
            E_Unit_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_NOpt::Va,
            1 => E_Unit_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_NNS {
    Va,
    Vb(NS),
}
impl Subj for E_Unit_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_NNS::Va => D::Var(0, vec![]),
            E_Unit_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_NNS::Va,
            1 => E_Unit_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_NVec {
    Va,
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_Unit_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_NVec::Va => D::Var(0, vec![]),
            E_Unit_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_NVec::Va,
            1 => E_Unit_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_Tup {
    Va,
    Vb(u8, String),
}
impl Subj for E_Unit_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_Tup::Va => D::Var(0, vec![]),
            E_Unit_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_Tup::Va,
            1 => E_Unit_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_TSkip {
    Va,
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_Unit_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_TSkip::Va => D::Var(0, vec![]),
            E_Unit_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_TSkip::Va,
            1 => E_Unit_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_T0 {
    Va,
    Vb(),
}
impl Subj for E_Unit_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_T0::Va => D::Var(0, vec![]),
            E_Unit_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_T0::Va,
            1 => E_Unit_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_Named {
    Va,
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_Unit_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_Named::Va => D::Var(0, vec![]),
            E_Unit_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_Named::Va,
            1 => E_Unit_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_NMix {
    Va,
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_Unit_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_NMix::Va => D::Var(0, vec![]),
            E_Unit_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_NMix::Va,
            1 => E_Unit_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_N0 {
    Va,
    Vb {  },
}
impl Subj for E_Unit_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_N0::Va => D::Var(0, vec![]),
            E_Unit_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_N0::Va,
            1 => E_Unit_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_NArr {
    Va,
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_Unit_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_NArr::Va => D::Var(0, vec![]),
            E_Unit_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_NArr::Va,
            1 => E_Unit_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_NUnk {
    Va,
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_Unit_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_NUnk::Va => D::Var(0, vec![]),
            E_Unit_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_NUnk::Va,
            1 => E_Unit_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_SUnit {
    Va,
    #[cbor(skip)] Vb,
}
impl Subj for E_Unit_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_SUnit::Va => D::Var(0, vec![]),
            E_Unit_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_SUnit::Va,
            1 => E_Unit_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_SNew {
    Va,
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_Unit_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_SNew::Va => D::Var(0, vec![]),
            E_Unit_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_SNew::Va,
            1 => E_Unit_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_EmA {
    Va,
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_Unit_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_EmA::Va => D::Var(0, vec![]),
            E_Unit_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_EmA::Va,
            1 => E_Unit_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_EmB {
    Va,
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_Unit_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_EmB::Va => D::Var(0, vec![]),
            E_Unit_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_EmB::Va,
            1 => E_Unit_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_NEN {
    Va,
    Vb(EN),
}
impl Subj for E_Unit_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_NEN::Va => D::Var(0, vec![]),
            E_Unit_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_NEN::Va,
            1 => E_Unit_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_Unit {
    #[cbor(rename = "n0")] Va,
    Vb,
}
impl Subj for E_UText_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_Unit::Va => D::Var(0, vec![]),
            E_UText_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_Unit::Va,
            1 => E_UText_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_UText {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = "")] Vb,
}
impl Subj for E_UText_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_UText::Va => D::Var(0, vec![]),
            E_UText_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_UText::Va,
            1 => E_UText_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_UNum {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_UText_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_UNum::Va => D::Var(0, vec![]),
            E_UText_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_UNum::Va,
            1 => E_UText_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UText_UDisc {
    #[cbor(rename = "n0")] Va,
    Vb = 2,
}
impl Subj for E_UText_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_UDisc::Va => D::Var(0, vec![]),
            E_UText_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_UDisc::Va,
            1 => E_UText_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UText_UExpr {
    #[cbor(rename = "n0")] Va,
    Vb = 41 * 100 + 23,
}
impl Subj for E_UText_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_UExpr::Va => D::Var(0, vec![]),
            E_UText_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_UExpr::Va,
            1 => E_UText_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_UStruct {
    #[cbor(rename = "n0")] Va,
    #[cbor(as_struct)] Vb,
}
impl Subj for E_UText_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_UStruct::Va => D::Var(0, vec![]),
            E_UText_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_UStruct::Va,
            1 => E_UText_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_NU8 {
    #[cbor(rename = "n0")] Va,
    Vb(u8),
}
impl Subj for E_UText_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_NU8::Va => D::Var(0, vec![]),
            E_UText_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_NU8::Va,
            1 => E_UText_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_NStr {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_UText_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_NStr::Va => D::Var(0, vec![]),
            E_UText_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_NStr::Va,
            1 => E_UText_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_NOpt {
    #[cbor(rename = "n0")] Va,
    Vb(Option<u8>),
}
impl Subj for E_UText_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_NOpt::Va => D::Var(0, vec![]),
            E_UText_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_NOpt::Va,
            1 => E_UText_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_NNS {
    #[cbor(rename = "n0")] Va,
    Vb(NS),
}
impl Subj for E_UText_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_NNS::Va => D::Var(0, vec![]),
            E_UText_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_NNS::Va,
            1 => E_UText_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_NVec {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_UText_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_NVec::Va => D::Var(0, vec![]),
            E_UText_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_NVec::Va,
            1 => E_UText_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_Tup {
    #[cbor(rename = "n0")] Va,
    Vb(u8, String),
}
impl Subj for E_UText_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_Tup::Va => D::Var(0, vec![]),
            E_UText_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_Tup::Va,
            1 => E_UText_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_TSkip {
    #[cbor(rename = "n0")] Va,
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_UText_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_TSkip::Va => D::Var(0, vec![]),
            E_UText_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_TSkip::Va,
            1 => E_UText_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_T0 {
    #[cbor(rename = "n0")] Va,
    Vb(),
}
impl Subj for E_UText_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_T0::Va => D::Var(0, vec![]),
            E_UText_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_T0::Va,
            1 => E_UText_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_Named {
    #[cbor(rename = "n0")] Va,
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_UText_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_Named::Va => D::Var(0, vec![]),
            E_UText_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_Named::Va,
            1 => E_UText_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_NMix {
    #[cbor(rename = "n0")] Va,
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_UText_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_NMix::Va => D::Var(0, vec![]),
            E_UText_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_NMix::Va,
            1 => E_UText_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_N0 {
    #[cbor(rename = "n0")] Va,
    Vb {  },
}
impl Subj for E_UText_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_N0::Va => D::Var(0, vec![]),
            E_UText_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_N0::Va,
            1 => E_UText_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_NArr {
    #[cbor(rename = "n0")] Va,
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_UText_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_NArr::Va => D::Var(0, vec![]),
            E_UText_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_NArr::Va,
            1 => E_UText_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_NUnk {
    #[cbor(rename = "n0")] Va,
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_UText_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_NUnk::Va => D::Var(0, vec![]),
            E_UText_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_NUnk::Va,
            1 => E_UText_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_SUnit {
    #[cbor(rename = "n0")] Va,
    #[cbor(skip)] Vb,
}
impl Subj for E_UText_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_SUnit::Va => D::Var(0, vec![]),
            E_UText_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_SUnit::Va,
            1 => E_UText_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_SNew {
    #[cbor(rename = "n0")] Va,
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_UText_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_SNew::Va => D::Var(0, vec![]),
            E_UText_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_SNew::Va,
            1 => E_UText_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_EmA {
    #[cbor(rename = "n0")] Va,
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_UText_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_EmA::Va => D::Var(0, vec![]),
            E_UText_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_EmA::Va,
            1 => E_UText_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_EmB {
    #[cbor(rename = "n0")] Va,
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_UText_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_EmB::Va => D::Var(0, vec![]),
            E_UText_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_EmB::Va,
            1 => E_UText_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_NEN {
    #[cbor(rename = "n0")] Va,
    Vb(EN),
}
impl Subj for E_UText_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_NEN::Va => D::Var(0, vec![]),
            E_UText_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_NEN::Va,
            1 => E_UText_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_Unit {
    #[cbor(rename = 7)] Va,
    Vb,
}
impl Subj for E_UNum_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_Unit::Va => D::Var(0, vec![]),
            E_UNum_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_Unit::Va,
            1 => E_UNum_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_UText {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = "")] Vb,
}
impl Subj for E_UNum_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_UText::Va => D::Var(0, vec![]),
            E_UNum_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_UText::Va,
            1 => E_UNum_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_UNum {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_UNum_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_UNum::Va => D::Var(0, vec![]),
            E_UNum_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_UNum::Va,
            1 => E_UNum_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UNum_UDisc {
    #[cbor(rename = 7)] Va,
    Vb = 2,
}
impl Subj for E_UNum_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_UDisc::Va => D::Var(0, vec![]),
            E_UNum_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_UDisc::Va,
            1 => E_UNum_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UNum_UExpr {
    #[cbor(rename = 7)] Va,
    Vb = 41 * 100 + 23,
}
impl Subj for E_UNum_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_UExpr::Va => D::Var(0, vec![]),
            E_UNum_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_UExpr::Va,
            1 => E_UNum_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_UStruct {
    #[cbor(rename = 7)] Va,
    #[cbor(as_struct)] Vb,
}
impl Subj for E_UNum_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_UStruct::Va => D::Var(0, vec![]),
            E_UNum_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_UStruct::Va,
            1 => E_UNum_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_NU8 {
    #[cbor(rename = 7)] Va,
    Vb(u8),
}
impl Subj for E_UNum_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_NU8::Va => D::Var(0, vec![]),
            E_UNum_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_NU8::Va,
            1 => E_UNum_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_NStr {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_UNum_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_NStr::Va => D::Var(0, vec![]),
            E_UNum_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_NStr::Va,
            1 => E_UNum_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_NOpt {
    #[cbor(rename = 7)] Va,
    Vb(Option<u8>),
}
impl Subj for E_UNum_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_NOpt::Va => D::Var(0, vec![]),
            E_UNum_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_NOpt::Va,
            1 => E_UNum_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_NNS {
    #[cbor(rename = 7)] Va,
    Vb(NS),
}
impl Subj for E_UNum_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_NNS::Va => D::Var(0, vec![]),
            E_UNum_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_NNS::Va,
            1 => E_UNum_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_NVec {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_UNum_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_NVec::Va => D::Var(0, vec![]),
            E_UNum_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_NVec::Va,
            1 => E_UNum_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_Tup {
    #[cbor(rename = 7)] Va,
    Vb(u8, String),
}
impl Subj for E_UNum_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_Tup::Va => D::Var(0, vec![]),
            E_UNum_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_Tup::Va,
            1 => E_UNum_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_TSkip {
    #[cbor(rename = 7)] Va,
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_UNum_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_TSkip::Va => D::Var(0, vec![]),
            E_UNum_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_TSkip::Va,
            1 => E_UNum_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_T0 {
    #[cbor(rename = 7)] Va,
    Vb(),
}
impl Subj for E_UNum_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_T0::Va => D::Var(0, vec![]),
            E_UNum_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_T0::Va,
            1 => E_UNum_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_Named {
    #[cbor(rename = 7)] Va,
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_UNum_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_Named::Va => D::Var(0, vec![]),
            E_UNum_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_Named::Va,
            1 => E_UNum_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_NMix {
    #[cbor(rename = 7)] Va,
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_UNum_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_NMix::Va => D::Var(0, vec![]),
            E_UNum_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_NMix::Va,
            1 => E_UNum_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_N0 {
    #[cbor(rename = 7)] Va,
    Vb {  },
}
impl Subj for E_UNum_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_N0::Va => D::Var(0, vec![]),
            E_UNum_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_N0::Va,
            1 => E_UNum_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_NArr {
    #[cbor(rename = 7)] Va,
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_UNum_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_NArr::Va => D::Var(0, vec![]),
            E_UNum_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_NArr::Va,
            1 => E_UNum_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_NUnk {
    #[cbor(rename = 7)] Va,
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_UNum_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_NUnk::Va => D::Var(0, vec![]),
            E_UNum_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_NUnk::Va,
            1 => E_UNum_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_SUnit {
    #[cbor(rename = 7)] Va,
    #[cbor(skip)] Vb,
}
impl Subj for E_UNum_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_SUnit::Va => D::Var(0, vec![]),
            E_UNum_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_SUnit::Va,
            1 => E_UNum_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_SNew {
    #[cbor(rename = 7)] Va,
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_UNum_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_SNew::Va => D::Var(0, vec![]),
            E_UNum_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_SNew::Va,
            1 => E_UNum_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_EmA {
    #[cbor(rename = 7)] Va,
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_UNum_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_EmA::Va => D::Var(0, vec![]),
            E_UNum_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_EmA::Va,
            1 => E_UNum_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_EmB {
    #[cbor(rename = 7)] Va,
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_UNum_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_EmB::Va => D::Var(0, vec![]),
            E_UNum_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_EmB::Va,
            1 => E_UNum_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_NEN {
    #[cbor(rename = 7)] Va,
    Vb(EN),
}
impl Subj for E_UNum_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_NEN::Va => D::Var(0, vec![]),
            E_UNum_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_NEN::Va,
            1 => E_UNum_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_Unit {
    Va = 1,
    Vb,
}
impl Subj for E_UDisc_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_Unit::Va => D::Var(0, vec![]),
            E_UDisc_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_Unit::Va,
            1 => E_UDisc_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_UText {
    Va = 1,
    #[cbor(rename = "")] Vb,
}
impl Subj for E_UDisc_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_UText::Va => D::Var(0, vec![]),
            E_UDisc_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_UText::Va,
            1 => E_UDisc_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_UNum {
    Va = 1,
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_UDisc_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_UNum::Va => D::Var(0, vec![]),
            E_UDisc_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_UNum::Va,
            1 => E_UDisc_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_UDisc {
    Va = 1,
    Vb = 2,
}
impl Subj for E_UDisc_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_UDisc::Va => D::Var(0, vec![]),
            E_UDisc_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_UDisc::Va,
            1 => E_UDisc_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_UExpr {
    Va = 1,
    Vb = 41 * 100 + 23,
}
impl Subj for E_UDisc_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_UExpr::Va => D::Var(0, vec![]),
            E_UDisc_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_UExpr::Va,
            1 => E_UDisc_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_UStruct {
    Va = 1,
    #[cbor(as_struct)] Vb,
}
impl Subj for E_UDisc_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_UStruct::Va => D::Var(0, vec![]),
            E_UDisc_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_UStruct::Va,
            1 => E_UDisc_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_NU8 {
    Va = 1,
    Vb(u8),
}
impl Subj for E_UDisc_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_NU8::Va => D::Var(0, vec![]),
            E_UDisc_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_NU8::Va,
            1 => E_UDisc_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_NStr {
    Va = 1,
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_UDisc_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_NStr::Va => D::Var(0, vec![]),
            E_UDisc_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_NStr::Va,
            1 => E_UDisc_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_NOpt {
    Va = 1,
    Vb(Option<u8>),
}
impl Subj for E_UDisc_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_NOpt::Va => D::Var(0, vec![]),
            E_UDisc_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_NOpt::Va,
            1 => E_UDisc_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_NNS {
    Va = 1,
    Vb(NS),
}
impl Subj for E_UDisc_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_NNS::Va => D::Var(0, vec![]),
            E_UDisc_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_NNS::Va,
            1 => E_UDisc_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_NVec {
    Va = 1,
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_UDisc_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_NVec::Va => D::Var(0, vec![]),
            E_UDisc_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_NVec::Va,
            1 => E_UDisc_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_Tup {
    Va = 1,
    Vb(u8, String),
}
impl Subj for E_UDisc_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_Tup::Va => D::Var(0, vec![]),
            E_UDisc_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_Tup::Va,
            1 => E_UDisc_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_TSkip {
    Va = 1,
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_UDisc_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_TSkip::Va => D::Var(0, vec![]),
            E_UDisc_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_TSkip::Va,
            1 => E_UDisc_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_T0 {
    Va = 1,
    Vb(),
}
impl Subj for E_UDisc_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_T0::Va => D::Var(0, vec![]),
            E_UDisc_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_T0::Va,
            1 => E_UDisc_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_Named {
    Va = 1,
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_UDisc_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_Named::Va => D::Var(0, vec![]),
            E_UDisc_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_Named::Va,
            1 => E_UDisc_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_NMix {
    Va = 1,
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_UDisc_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_NMix::Va => D::Var(0, vec![]),
            E_UDisc_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_NMix::Va,
            1 => E_UDisc_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_N0 {
    Va = 1,
    Vb {  },
}
impl Subj for E_UDisc_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_N0::Va => D::Var(0, vec![]),
            E_UDisc_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_N0::Va,
            1 => E_UDisc_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_NArr {
    Va = 1,
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_UDisc_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_NArr::Va => D::Var(0, vec![]),
            E_UDisc_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_NArr::Va,
            1 => E_UDisc_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_NUnk {
    Va = 1,
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_UDisc_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_NUnk::Va => D::Var(0, vec![]),
            E_UDisc_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_NUnk::Va,
            1 => E_UDisc_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_SUnit {
    Va = 1,
    #[cbor(skip)] Vb,
}
impl Subj for E_UDisc_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_SUnit::Va => D::Var(0, vec![]),
            E_UDisc_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_SUnit::Va,
            1 => E_UDisc_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_SNew {
    Va = 1,
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_UDisc_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_SNew::Va => D::Var(0, vec![]),
            E_UDisc_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_SNew::Va,
            1 => E_UDisc_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_EmA {
    Va = 1,
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_UDisc_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_EmA::Va => D::Var(0, vec![]),
            E_UDisc_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_EmA::Va,
            1 => E_UDisc_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_EmB {
    Va = 1,
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_UDisc_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_EmB::Va => D::Var(0, vec![]),
            E_UDisc_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_EmB::Va,
            1 => E_UDisc_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_NEN {
    Va = 1,
    Vb(EN),
}
impl Subj for E_UDisc_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_NEN::Va => D::Var(0, vec![]),
            E_UDisc_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_NEN::Va,
            1 => E_UDisc_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_Unit {
    Va = -(1 << 8),
    Vb,
}
impl Subj for E_UExpr_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_Unit::Va => D::Var(0, vec![]),
            E_UExpr_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_Unit::Va,
            1 => E_UExpr_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_UText {
    Va = -(1 << 8),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_UExpr_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_UText::Va => D::Var(0, vec![]),
            E_UExpr_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_UText::Va,
            1 => E_UExpr_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_UNum {
    Va = -(1 << 8),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_UExpr_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_UNum::Va => D::Var(0, vec![]),
            E_UExpr_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_UNum::Va,
            1 => E_UExpr_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_UDisc {
    Va = -(1 << 8),
    Vb = 2,
}
impl Subj for E_UExpr_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_UDisc::Va => D::Var(0, vec![]),
            E_UExpr_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_UDisc::Va,
            1 => E_UExpr_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_UExpr {
    Va = -(1 << 8),
    Vb = 41 * 100 + 23,
}
impl Subj for E_UExpr_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_UExpr::Va => D::Var(0, vec![]),
            E_UExpr_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_UExpr::Va,
            1 => E_UExpr_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_UStruct {
    Va = -(1 << 8),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_UExpr_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_UStruct::Va => D::Var(0, vec![]),
            E_UExpr_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_UStruct::Va,
            1 => E_UExpr_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_NU8 {
    Va = -(1 << 8),
    Vb(u8),
}
impl Subj for E_UExpr_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_NU8::Va => D::Var(0, vec![]),
            E_UExpr_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_NU8::Va,
            1 => E_UExpr_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_NStr {
    Va = -(1 << 8),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_UExpr_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_NStr::Va => D::Var(0, vec![]),
            E_UExpr_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_NStr::Va,
            1 => E_UExpr_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_NOpt {
    Va = -(1 << 8),
    Vb(Option<u8>),
}
impl Subj for E_UExpr_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_NOpt::Va => D::Var(0, vec![]),
            E_UExpr_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_NOpt::Va,
            1 => E_UExpr_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_NNS {
    Va = -(1 << 8),
    Vb(NS),
}
impl Subj for E_UExpr_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_NNS::Va => D::Var(0, vec![]),
            E_UExpr_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_NNS::Va,
            1 => E_UExpr_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_NVec {
    Va = -(1 << 8),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_UExpr_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_NVec::Va => D::Var(0, vec![]),
            E_UExpr_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_NVec::Va,
            1 => E_UExpr_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_Tup {
    Va = -(1 << 8),
    Vb(u8, String),
}
impl Subj for E_UExpr_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_Tup::Va => D::Var(0, vec![]),
            E_UExpr_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_Tup::Va,
            1 => E_UExpr_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_TSkip {
    Va = -(1 << 8),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_UExpr_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_TSkip::Va => D::Var(0, vec![]),
            E_UExpr_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_TSkip::Va,
            1 => E_UExpr_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_T0 {
    Va = -(1 << 8),
    Vb(),
}
impl Subj for E_UExpr_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_T0::Va => D::Var(0, vec![]),
            E_UExpr_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_T0::Va,
            1 => E_UExpr_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_Named {
    Va = -(1 << 8),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_UExpr_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_Named::Va => D::Var(0, vec![]),
            E_UExpr_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_Named::Va,
            1 => E_UExpr_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_NMix {
    Va = -(1 << 8),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_UExpr_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_NMix::Va => D::Var(0, vec![]),
            E_UExpr_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_NMix::Va,
            1 => E_UExpr_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_N0 {
    Va = -(1 << 8),
    Vb {  },
}
impl Subj for E_UExpr_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_N0::Va => D::Var(0, vec![]),
            E_UExpr_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_N0::Va,
            1 => E_UExpr_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_NArr {
    Va = -(1 << 8),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_UExpr_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_NArr::Va => D::Var(0, vec![]),
            E_UExpr_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_NArr::Va,
            1 => E_UExpr_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_NUnk {
    Va = -(1 << 8),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_UExpr_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_NUnk::Va => D::Var(0, vec![]),
            E_UExpr_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_NUnk::Va,
            1 => E_UExpr_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_SUnit {
    Va = -(1 << 8),
    #[cbor(skip)] Vb,
}
impl Subj for E_UExpr_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_SUnit::Va => D::Var(0, vec![]),
            E_UExpr_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_SUnit::Va,
            1 => E_UExpr_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_SNew {
    Va = -(1 << 8),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_UExpr_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_SNew::Va => D::Var(0, vec![]),
            E_UExpr_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_SNew::Va,
            1 => E_UExpr_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_EmA {
    Va = -(1 << 8),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_UExpr_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_EmA::Va => D::Var(0, vec![]),
            E_UExpr_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_EmA::Va,
            1 => E_UExpr_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_EmB {
    Va = -(1 << 8),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_UExpr_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_EmB::Va => D::Var(0, vec![]),
            E_UExpr_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_EmB::Va,
            1 => E_UExpr_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_NEN {
    Va = -(1 << 8),
    Vb(EN),
}
impl Subj for E_UExpr_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_NEN::Va => D::Var(0, vec![]),
            E_UExpr_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_NEN::Va,
            1 => E_UExpr_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_Unit {
    #[cbor(as_struct)] Va,
    Vb,
}
impl Subj for E_UStruct_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_Unit::Va => D::Var(0, vec![]),
            E_UStruct_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_Unit::Va,
            1 => E_UStruct_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_UText {
    #[cbor(as_struct)] Va,
    #[cbor(rename = "")] Vb,
}
impl Subj for E_UStruct_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_UText::Va => D::Var(0, vec![]),
            E_UStruct_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_UText::Va,
            1 => E_UStruct_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_UNum {
    #[cbor(as_struct)] Va,
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_UStruct_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_UNum::Va => D::Var(0, vec![]),
            E_UStruct_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_UNum::Va,
            1 => E_UStruct_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UStruct_UDisc {
    #[cbor(as_struct)] Va,
    Vb = 2,
}
impl Subj for E_UStruct_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_UDisc::Va => D::Var(0, vec![]),
            E_UStruct_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_UDisc::Va,
            1 => E_UStruct_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UStruct_UExpr {
    #[cbor(as_struct)] Va,
    Vb = 41 * 100 + 23,
}
impl Subj for E_UStruct_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_UExpr::Va => D::Var(0, vec![]),
            E_UStruct_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_UExpr::Va,
            1 => E_UStruct_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_UStruct {
    #[cbor(as_struct)] Va,
    #[cbor(as_struct)] Vb,
}
impl Subj for E_UStruct_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_UStruct::Va => D::Var(0, vec![]),
            E_UStruct_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_UStruct::Va,
            1 => E_UStruct_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_NU8 {
    #[cbor(as_struct)] Va,
    Vb(u8),
}
impl Subj for E_UStruct_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_NU8::Va => D::Var(0, vec![]),
            E_UStruct_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_NU8::Va,
            1 => E_UStruct_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_NStr {
    #[cbor(as_struct)] Va,
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_UStruct_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_NStr::Va => D::Var(0, vec![]),
            E_UStruct_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_NStr::Va,
            1 => E_UStruct_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_NOpt {
    #[cbor(as_struct)] Va,
    Vb(Option<u8>),
}
impl Subj for E_UStruct_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_NOpt::Va => D::Var(0, vec![]),
            E_UStruct_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_NOpt::Va,
            1 => E_UStruct_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_NNS {
    #[cbor(as_struct)] Va,
    Vb(NS),
}
impl Subj for E_UStruct_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_NNS::Va => D::Var(0, vec![]),
            E_UStruct_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_NNS::Va,
            1 => E_UStruct_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_NVec {
    #[cbor(as_struct)] Va,
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_UStruct_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_NVec::Va => D::Var(0, vec![]),
            E_UStruct_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_NVec::Va,
            1 => E_UStruct_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_Tup {
    #[cbor(as_struct)] Va,
    Vb(u8, String),
}
impl Subj for E_UStruct_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_Tup::Va => D::Var(0, vec![]),
            E_UStruct_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_Tup::Va,
            1 => E_UStruct_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_TSkip {
    #[cbor(as_struct)] Va,
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_UStruct_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_TSkip::Va => D::Var(0, vec![]),
            E_UStruct_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_TSkip::Va,
            1 => E_UStruct_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_T0 {
    #[cbor(as_struct)] Va,
    Vb(),
}
impl Subj for E_UStruct_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_T0::Va => D::Var(0, vec![]),
            E_UStruct_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_T0::Va,
            1 => E_UStruct_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_Named {
    #[cbor(as_struct)] Va,
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_UStruct_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_Named::Va => D::Var(0, vec![]),
            E_UStruct_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_Named::Va,
            1 => E_UStruct_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_NMix {
    #[cbor(as_struct)] Va,
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_UStruct_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_NMix::Va => D::Var(0, vec![]),
            E_UStruct_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_NMix::Va,
            1 => E_UStruct_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_N0 {
    #[cbor(as_struct)] Va,
    Vb {  },
}
impl Subj for E_UStruct_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_N0::Va => D::Var(0, vec![]),
            E_UStruct_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_N0::Va,
            1 => E_UStruct_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_NArr {
    #[cbor(as_struct)] Va,
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_UStruct_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_NArr::Va => D::Var(0, vec![]),
            E_UStruct_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_NArr::Va,
            1 => E_UStruct_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_NUnk {
    #[cbor(as_struct)] Va,
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_UStruct_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_NUnk::Va => D::Var(0, vec![]),
            E_UStruct_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_NUnk::Va,
            1 => E_UStruct_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_SUnit {
    #[cbor(as_struct)] Va,
    #[cbor(skip)] Vb,
}
impl Subj for E_UStruct_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_SUnit::Va => D::Var(0, vec![]),
            E_UStruct_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_SUnit::Va,
            1 => E_UStruct_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_SNew {
    #[cbor(as_struct)] Va,
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_UStruct_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_SNew::Va => D::Var(0, vec![]),
            E_UStruct_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_SNew::Va,
            1 => E_UStruct_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_EmA {
    #[cbor(as_struct)] Va,
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_UStruct_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_EmA::Va => D::Var(0, vec![]),
            E_UStruct_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_EmA::Va,
            1 => E_UStruct_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_EmB {
    #[cbor(as_struct)] Va,
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_UStruct_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_EmB::Va => D::Var(0, vec![]),
            E_UStruct_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_EmB::Va,
            1 => E_UStruct_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_NEN {
    #[cbor(as_struct)] Va,
    Vb(EN),
}
impl Subj for E_UStruct_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_NEN::Va => D::Var(0, vec![]),
            E_UStruct_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_NEN::Va,
            1 => E_UStruct_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_Unit {
    Va(u8),
    Vb,
}
impl Subj for E_NU8_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_Unit::Va(Subj::from_d(&v[0])),
            1 => E_NU8_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_UText {
    Va(u8),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_NU8_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_UText::Va(Subj::from_d(&v[0])),
            1 => E_NU8_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_UNum {
    Va(u8),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_NU8_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_UNum::Va(Subj::from_d(&v[0])),
            1 => E_NU8_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NU8_UDisc {
    Va(u8),
    Vb = 2,
}
impl Subj for E_NU8_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_UDisc::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_UDisc::Va(Subj::from_d(&v[0])),
            1 => E_NU8_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NU8_UExpr {
    Va(u8),
    Vb = 41 * 100 + 23,
}
impl Subj for E_NU8_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_UExpr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_UExpr::Va(Subj::from_d(&v[0])),
            1 => E_NU8_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_UStruct {
    Va(u8),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_NU8_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_UStruct::Va(Subj::from_d(&v[0])),
            1 => E_NU8_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_NU8 {
    Va(u8),
    Vb(u8),
}
impl Subj for E_NU8_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_NU8::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_NU8::Va(Subj::from_d(&v[0])),
            1 => E_NU8_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_NStr {
    Va(u8),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_NU8_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_NStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_NStr::Va(Subj::from_d(&v[0])),
            1 => E_NU8_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_NOpt {
    Va(u8),
    Vb(Option<u8>),
}
impl Subj for E_NU8_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_NOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_NOpt::Va(Subj::from_d(&v[0])),
            1 => E_NU8_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_NNS {
    Va(u8),
    Vb(NS),
}
impl Subj for E_NU8_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_NNS::Va(Subj::from_d(&v[0])),
            1 => E_NU8_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_NVec {
    Va(u8),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_NU8_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_NVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_NVec::Va(Subj::from_d(&v[0])),
            1 => E_NU8_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_Tup {
    Va(u8),
    Vb(u8, String),
}
impl Subj for E_NU8_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_Tup::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_Tup::Va(Subj::from_d(&v[0])),
            1 => E_NU8_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_TSkip {
    Va(u8),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_NU8_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_TSkip::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_TSkip::Va(Subj::from_d(&v[0])),
            1 => E_NU8_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_T0 {
    Va(u8),
    Vb(),
}
impl Subj for E_NU8_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_T0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_T0::Va(Subj::from_d(&v[0])),
            1 => E_NU8_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_Named {
    Va(u8),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NU8_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_Named::Va(Subj::from_d(&v[0])),
            1 => E_NU8_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_NMix {
    Va(u8),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_NU8_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_NMix::Va(Subj::from_d(&v[0])),
            1 => E_NU8_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_N0 {
    Va(u8),
    Vb {  },
}
impl Subj for E_NU8_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_N0::Va(Subj::from_d(&v[0])),
            1 => E_NU8_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_NArr {
    Va(u8),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NU8_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_NArr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_NArr::Va(Subj::from_d(&v[0])),
            1 => E_NU8_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_NUnk {
    Va(u8),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_NU8_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_NUnk::Va(Subj::from_d(&v[0])),
            1 => E_NU8_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_SUnit {
    Va(u8),
    #[cbor(skip)] Vb,
}
impl Subj for E_NU8_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_SUnit::Va(Subj::from_d(&v[0])),
            1 => E_NU8_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_SNew {
    Va(u8),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_NU8_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_SNew::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_SNew::Va(Subj::from_d(&v[0])),
            1 => E_NU8_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_EmA {
    Va(u8),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_NU8_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_EmA::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_EmA::Va(Subj::from_d(&v[0])),
            1 => E_NU8_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_EmB {
    Va(u8),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_NU8_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_EmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_EmB::Va(Subj::from_d(&v[0])),
            1 => E_NU8_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_NEN {
    Va(u8),
    Vb(EN),
}
impl Subj for E_NU8_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_NEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_NEN::Va(Subj::from_d(&v[0])),
            1 => E_NU8_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_Unit {
    #[cbor(rename = 7)] Va(String),
    Vb,
}
impl Subj for E_NStr_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_Unit::Va(Subj::from_d(&v[0])),
            1 => E_NStr_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_UText {
    #[cbor(rename = 7)] Va(String),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_NStr_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_UText::Va(Subj::from_d(&v[0])),
            1 => E_NStr_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_UNum {
    #[cbor(rename = 7)] Va(String),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_NStr_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_UNum::Va(Subj::from_d(&v[0])),
            1 => E_NStr_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NStr_UDisc {
    #[cbor(rename = 7)] Va(String),
    Vb = 2,
}
impl Subj for E_NStr_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_UDisc::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_UDisc::Va(Subj::from_d(&v[0])),
            1 => E_NStr_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NStr_UExpr {
    #[cbor(rename = 7)] Va(String),
    Vb = 41 * 100 + 23,
}
impl Subj for E_NStr_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_UExpr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_UExpr::Va(Subj::from_d(&v[0])),
            1 => E_NStr_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_UStruct {
    #[cbor(rename = 7)] Va(String),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_NStr_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_UStruct::Va(Subj::from_d(&v[0])),
            1 => E_NStr_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_NU8 {
    #[cbor(rename = 7)] Va(String),
    Vb(u8),
}
impl Subj for E_NStr_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_NU8::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_NU8::Va(Subj::from_d(&v[0])),
            1 => E_NStr_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_NStr {
    #[cbor(rename = 7)] Va(String),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_NStr_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_NStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_NStr::Va(Subj::from_d(&v[0])),
            1 => E_NStr_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_NOpt {
    #[cbor(rename = 7)] Va(String),
    Vb(Option<u8>),
}
impl Subj for E_NStr_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_NOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_NOpt::Va(Subj::from_d(&v[0])),
            1 => E_NStr_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_NNS {
    #[cbor(rename = 7)] Va(String),
    Vb(NS),
}
impl Subj for E_NStr_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_NNS::Va(Subj::from_d(&v[0])),
            1 => E_NStr_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_NVec {
    #[cbor(rename = 7)] Va(String),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_NStr_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_NVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_NVec::Va(Subj::from_d(&v[0])),
            1 => E_NStr_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_Tup {
    #[cbor(rename = 7)] Va(String),
    Vb(u8, String),
}
impl Subj for E_NStr_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_Tup::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_Tup::Va(Subj::from_d(&v[0])),
            1 => E_NStr_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_TSkip {
    #[cbor(rename = 7)] Va(String),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_NStr_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_TSkip::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_TSkip::Va(Subj::from_d(&v[0])),
            1 => E_NStr_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_T0 {
    #[cbor(rename = 7)] Va(String),
    Vb(),
}
impl Subj for E_NStr_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_T0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_T0::Va(Subj::from_d(&v[0])),
            1 => E_NStr_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_Named {
    #[cbor(rename = 7)] Va(String),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NStr_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_Named::Va(Subj::from_d(&v[0])),
            1 => E_NStr_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_NMix {
    #[cbor(rename = 7)] Va(String),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_NStr_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_NMix::Va(Subj::from_d(&v[0])),
            1 => E_NStr_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_N0 {
    #[cbor(rename = 7)] Va(String),
    Vb {  },
}
impl Subj for E_NStr_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_N0::Va(Subj::from_d(&v[0])),
            1 => E_NStr_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_NArr {
    #[cbor(rename = 7)] Va(String),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NStr_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_NArr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_NArr::Va(Subj::from_d(&v[0])),
            1 => E_NStr_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_NUnk {
    #[cbor(rename = 7)] Va(String),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_NStr_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_NUnk::Va(Subj::from_d(&v[0])),
            1 => E_NStr_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_SUnit {
    #[cbor(rename = 7)] Va(String),
    #[cbor(skip)] Vb,
}
impl Subj for E_NStr_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_SUnit::Va(Subj::from_d(&v[0])),
            1 => E_NStr_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_SNew {
    #[cbor(rename = 7)] Va(String),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_NStr_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_SNew::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_SNew::Va(Subj::from_d(&v[0])),
            1 => E_NStr_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_EmA {
    #[cbor(rename = 7)] Va(String),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_NStr_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_EmA::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_EmA::Va(Subj::from_d(&v[0])),
            1 => E_NStr_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_EmB {
    #[cbor(rename = 7)] Va(String),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_NStr_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_EmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_EmB::Va(Subj::from_d(&v[0])),
            1 => E_NStr_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_NEN {
    #[cbor(rename = 7)] Va(String),
    Vb(EN),
}
impl Subj for E_NStr_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_NEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_NEN::Va(Subj::from_d(&v[0])),
            1 => E_NStr_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_Unit {
    Va(Option<u8>),
    Vb,
}
impl Subj for E_NOpt_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_Unit::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_UText {
    Va(Option<u8>),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_NOpt_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_UText::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_UNum {
    Va(Option<u8>),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_NOpt_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_UNum::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NOpt_UDisc {
    Va(Option<u8>),
    Vb = 2,
}
impl Subj for E_NOpt_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_UDisc::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_UDisc::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NOpt_UExpr {
    Va(Option<u8>),
    Vb = 41 * 100 + 23,
}
impl Subj for E_NOpt_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_UExpr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_UExpr::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_UStruct {
    Va(Option<u8>),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_NOpt_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_UStruct::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_NU8 {
    Va(Option<u8>),
    Vb(u8),
}
impl Subj for E_NOpt_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_NU8::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_NU8::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_NStr {
    Va(Option<u8>),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_NOpt_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_NStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_NStr::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_NOpt {
    Va(Option<u8>),
    Vb(Option<u8>),
}
impl Subj for E_NOpt_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_NOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_NOpt::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_NNS {
    Va(Option<u8>),
    Vb(NS),
}
impl Subj for E_NOpt_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_NNS::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_NVec {
    Va(Option<u8>),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_NOpt_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_NVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_NVec::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_Tup {
    Va(Option<u8>),
    Vb(u8, String),
}
impl Subj for E_NOpt_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_Tup::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_Tup::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_TSkip {
    Va(Option<u8>),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_NOpt_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_TSkip::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_TSkip::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_T0 {
    Va(Option<u8>),
    Vb(),
}
impl Subj for E_NOpt_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_T0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_T0::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_Named {
    Va(Option<u8>),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NOpt_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_Named::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_NMix {
    Va(Option<u8>),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_NOpt_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_NMix::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_N0 {
    Va(Option<u8>),
    Vb {  },
}
impl Subj for E_NOpt_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_N0::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_NArr {
    Va(Option<u8>),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NOpt_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_NArr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_NArr::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_NUnk {
    Va(Option<u8>),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_NOpt_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_NUnk::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_SUnit {
    Va(Option<u8>),
    #[cbor(skip)] Vb,
}
impl Subj for E_NOpt_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_SUnit::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_SNew {
    Va(Option<u8>),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_NOpt_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_SNew::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_SNew::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_EmA {
    Va(Option<u8>),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_NOpt_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_EmA::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_EmA::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_EmB {
    Va(Option<u8>),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_NOpt_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_EmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_EmB::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_NEN {
    Va(Option<u8>),
    Vb(EN),
}
impl Subj for E_NOpt_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_NEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_NEN::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_Unit {
    Va(NS),
    Vb,
}
impl Subj for E_NNS_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_Unit::Va(Subj::from_d(&v[0])),
            1 => E_NNS_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_UText {
    Va(NS),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_NNS_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_UText::Va(Subj::from_d(&v[0])),
            1 => E_NNS_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_UNum {
    Va(NS),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_NNS_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_UNum::Va(Subj::from_d(&v[0])),
            1 => E_NNS_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NNS_UDisc {
    Va(NS),
    Vb = 2,
}
impl Subj for E_NNS_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_UDisc::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_UDisc::Va(Subj::from_d(&v[0])),
            1 => E_NNS_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NNS_UExpr {
    Va(NS),
    Vb = 41 * 100 + 23,
}
impl Subj for E_NNS_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_UExpr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_UExpr::Va(Subj::from_d(&v[0])),
            1 => E_NNS_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_UStruct {
    Va(NS),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_NNS_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_UStruct::Va(Subj::from_d(&v[0])),
            1 => E_NNS_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_NU8 {
    Va(NS),
    Vb(u8),
}
impl Subj for E_NNS_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_NU8::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_NU8::Va(Subj::from_d(&v[0])),
            1 => E_NNS_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_NStr {
    Va(NS),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_NNS_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_NStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_NStr::Va(Subj::from_d(&v[0])),
            1 => E_NNS_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_NOpt {
    Va(NS),
    Vb(Option<u8>),
}
impl Subj for E_NNS_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_NOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_NOpt::Va(Subj::from_d(&v[0])),
            1 => E_NNS_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_NNS {
    Va(NS),
    Vb(NS),
}
impl Subj for E_NNS_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_NNS::Va(Subj::from_d(&v[0])),
            1 => E_NNS_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_NVec {
    Va(NS),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_NNS_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_NVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_NVec::Va(Subj::from_d(&v[0])),
            1 => E_NNS_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_Tup {
    Va(NS),
    Vb(u8, String),
}
impl Subj for E_NNS_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_Tup::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_Tup::Va(Subj::from_d(&v[0])),
            1 => E_NNS_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_TSkip {
    Va(NS),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_NNS_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_TSkip::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_TSkip::Va(Subj::from_d(&v[0])),
            1 => E_NNS_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_T0 {
    Va(NS),
    Vb(),
}
impl Subj for E_NNS_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_T0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_T0::Va(Subj::from_d(&v[0])),
            1 => E_NNS_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_Named {
    Va(NS),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NNS_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_Named::Va(Subj::from_d(&v[0])),
            1 => E_NNS_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_NMix {
    Va(NS),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_NNS_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_NMix::Va(Subj::from_d(&v[0])),
            1 => E_NNS_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_N0 {
    Va(NS),
    Vb {  },
}
impl Subj for E_NNS_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_N0::Va(Subj::from_d(&v[0])),
            1 => E_NNS_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_NArr {
    Va(NS),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NNS_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_NArr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_NArr::Va(Subj::from_d(&v[0])),
            1 => E_NNS_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_NUnk {
    Va(NS),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_NNS_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_NUnk::Va(Subj::from_d(&v[0])),
            1 => E_NNS_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_SUnit {
    Va(NS),
    #[cbor(skip)] Vb,
}
impl Subj for E_NNS_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_SUnit::Va(Subj::from_d(&v[0])),
            1 => E_NNS_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_SNew {
    Va(NS),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_NNS_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_SNew::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_SNew::Va(Subj::from_d(&v[0])),
            1 => E_NNS_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_EmA {
    Va(NS),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_NNS_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_EmA::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_EmA::Va(Subj::from_d(&v[0])),
            1 => E_NNS_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_EmB {
    Va(NS),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_NNS_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_EmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_EmB::Va(Subj::from_d(&v[0])),
            1 => E_NNS_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_NEN {
    Va(NS),
    Vb(EN),
}
impl Subj for E_NNS_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_NEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_NEN::Va(Subj::from_d(&v[0])),
            1 => E_NNS_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_Unit {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb,
}
impl Subj for E_NVec_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_Unit::Va(Subj::from_d(&v[0])),
            1 => E_NVec_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_UText {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_NVec_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_UText::Va(Subj::from_d(&v[0])),
            1 => E_NVec_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_UNum {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_NVec_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_UNum::Va(Subj::from_d(&v[0])),
            1 => E_NVec_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NVec_UDisc {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb = 2,
}
impl Subj for E_NVec_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_UDisc::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_UDisc::Va(Subj::from_d(&v[0])),
            1 => E_NVec_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NVec_UExpr {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb = 41 * 100 + 23,
}
impl Subj for E_NVec_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_UExpr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_UExpr::Va(Subj::from_d(&v[0])),
            1 => E_NVec_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_UStruct {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_NVec_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_UStruct::Va(Subj::from_d(&v[0])),
            1 => E_NVec_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_NU8 {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb(u8),
}
impl Subj for E_NVec_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_NU8::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_NU8::Va(Subj::from_d(&v[0])),
            1 => E_NVec_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_NStr {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_NVec_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_NStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_NStr::Va(Subj::from_d(&v[0])),
            1 => E_NVec_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_NOpt {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb(Option<u8>),
}
impl Subj for E_NVec_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_NOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_NOpt::Va(Subj::from_d(&v[0])),
            1 => E_NVec_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_NNS {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb(NS),
}
impl Subj for E_NVec_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_NNS::Va(Subj::from_d(&v[0])),
            1 => E_NVec_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_NVec {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_NVec_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_NVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_NVec::Va(Subj::from_d(&v[0])),
            1 => E_NVec_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_Tup {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb(u8, String),
}
impl Subj for E_NVec_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_Tup::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_Tup::Va(Subj::from_d(&v[0])),
            1 => E_NVec_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_TSkip {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_NVec_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_TSkip::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_TSkip::Va(Subj::from_d(&v[0])),
            1 => E_NVec_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_T0 {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb(),
}
impl Subj for E_NVec_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_T0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_T0::Va(Subj::from_d(&v[0])),
            1 => E_NVec_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_Named {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NVec_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_Named::Va(Subj::from_d(&v[0])),
            1 => E_NVec_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_NMix {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_NVec_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_NMix::Va(Subj::from_d(&v[0])),
            1 => E_NVec_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_N0 {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb {  },
}
impl Subj for E_NVec_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_N0::Va(Subj::from_d(&v[0])),
            1 => E_NVec_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_NArr {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NVec_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_NArr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_NArr::Va(Subj::from_d(&v[0])),
            1 => E_NVec_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_NUnk {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_NVec_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_NUnk::Va(Subj::from_d(&v[0])),
            1 => E_NVec_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_SUnit {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    #[cbor(skip)] Vb,
}
impl Subj for E_NVec_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_SUnit::Va(Subj::from_d(&v[0])),
            1 => E_NVec_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_SNew {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_NVec_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_SNew::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_SNew::Va(Subj::from_d(&v[0])),
            1 => E_NVec_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_EmA {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_NVec_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_EmA::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_EmA::Va(Subj::from_d(&v[0])),
            1 => E_NVec_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_EmB {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_NVec_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_EmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_EmB::Va(Subj::from_d(&v[0])),
            1 => E_NVec_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_NEN {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb(EN),
}
impl Subj for E_NVec_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_NEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_NEN::Va(Subj::from_d(&v[0])),
            1 => E_NVec_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_Unit {
    Va(u8, String),
    Vb,
}
impl Subj for E_Tup_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_Unit::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_Unit::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_UText {
    Va(u8, String),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_Tup_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_UText::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_UText::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_UNum {
    Va(u8, String),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_Tup_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_UNum::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_UNum::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_Tup_UDisc {
    Va(u8, String),
    Vb = 2,
}
impl Subj for E_Tup_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_UDisc::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_UDisc::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_Tup_UExpr {
    Va(u8, String),
    Vb = 41 * 100 + 23,
}
impl Subj for E_Tup_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_UExpr::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_UExpr::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_UStruct {
    Va(u8, String),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_Tup_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_UStruct::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_UStruct::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_NU8 {
    Va(u8, String),
    Vb(u8),
}
impl Subj for E_Tup_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_NU8::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_NU8::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_NStr {
    Va(u8, String),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_Tup_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_NStr::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_NStr::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_NOpt {
    Va(u8, String),
    Vb(Option<u8>),
}
impl Subj for E_Tup_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_NOpt::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_NOpt::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_NNS {
    Va(u8, String),
    Vb(NS),
}
impl Subj for E_Tup_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_NNS::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_NNS::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_NVec {
    Va(u8, String),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_Tup_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_NVec::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_NVec::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_Tup {
    Va(u8, String),
    Vb(u8, String),
}
impl Subj for E_Tup_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_Tup::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_Tup::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_TSkip {
    Va(u8, String),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_Tup_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_TSkip::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_TSkip::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_T0 {
    Va(u8, String),
    Vb(),
}
impl Subj for E_Tup_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_T0::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_T0::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_Named {
    Va(u8, String),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_Tup_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_Named::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_Named::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_NMix {
    Va(u8, String),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_Tup_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_NMix::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_NMix::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_N0 {
    Va(u8, String),
    Vb {  },
}
impl Subj for E_Tup_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_N0::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_N0::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_NArr {
    Va(u8, String),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_Tup_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_NArr::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_NArr::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_NUnk {
    Va(u8, String),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_Tup_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_NUnk::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_NUnk::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_SUnit {
    Va(u8, String),
    #[cbor(skip)] Vb,
}
impl Subj for E_Tup_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_SUnit::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_SUnit::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_SNew {
    Va(u8, String),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_Tup_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_SNew::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_SNew::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_EmA {
    Va(u8, String),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_Tup_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_EmA::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_EmA::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_EmB {
    Va(u8, String),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_Tup_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_EmB::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_EmB::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_NEN {
    Va(u8, String),
    Vb(EN),
}
impl Subj for E_Tup_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_NEN::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_NEN::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_Unit {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb,
}
impl Subj for E_TSkip_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_Unit::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_Unit::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_UText {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_TSkip_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_UText::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_UText::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_UNum {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_TSkip_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_UNum::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_UNum::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_TSkip_UDisc {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb = 2,
}
impl Subj for E_TSkip_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_UDisc::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_UDisc::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_TSkip_UExpr {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb = 41 * 100 + 23,
}
impl Subj for E_TSkip_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_UExpr::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_UExpr::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_UStruct {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_TSkip_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_UStruct::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_UStruct::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_NU8 {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb(u8),
}
impl Subj for E_TSkip_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_NU8::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_NU8::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_NStr {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_TSkip_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_NStr::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_NStr::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_NOpt {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb(Option<u8>),
}
impl Subj for E_TSkip_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_NOpt::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_NOpt::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_NNS {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb(NS),
}
impl Subj for E_TSkip_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_NNS::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_NNS::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_NVec {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_TSkip_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_NVec::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_NVec::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_Tup {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb(u8, String),
}
impl Subj for E_TSkip_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_Tup::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_Tup::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_TSkip {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_TSkip_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_TSkip::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_TSkip::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_T0 {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb(),
}
impl Subj for E_TSkip_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_T0::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_T0::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_Named {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_TSkip_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_Named::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_Named::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_NMix {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_TSkip_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_NMix::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_NMix::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_N0 {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb {  },
}
impl Subj for E_TSkip_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_N0::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_N0::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_NArr {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_TSkip_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_NArr::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_NArr::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_NUnk {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_TSkip_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_NUnk::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_NUnk::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_SUnit {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    #[cbor(skip)] Vb,
}
impl Subj for E_TSkip_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_SUnit::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_SUnit::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_SNew {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_TSkip_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_SNew::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_SNew::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_EmA {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_TSkip_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_EmA::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_EmA::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_EmB {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_TSkip_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_EmB::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_EmB::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_NEN {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb(EN),
}
impl Subj for E_TSkip_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_NEN::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_NEN::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_Unit {
    Va(),
    Vb,
}
impl Subj for E_T0_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_Unit::Va() => D::Var(0, vec![]),
            E_T0_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_Unit::Va(),
            1 => E_T0_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_UText {
    Va(),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_T0_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_UText::Va() => D::Var(0, vec![]),
            E_T0_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_UText::Va(),
            1 => E_T0_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_UNum {
    Va(),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_T0_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_UNum::Va() => D::Var(0, vec![]),
            E_T0_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_UNum::Va(),
            1 => E_T0_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_T0_UDisc {
    Va(),
    Vb = 2,
}
impl Subj for E_T0_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_UDisc::Va() => D::Var(0, vec![]),
            E_T0_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_UDisc::Va(),
            1 => E_T0_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_T0_UExpr {
    Va(),
    Vb = 41 * 100 + 23,
}
impl Subj for E_T0_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_UExpr::Va() => D::Var(0, vec![]),
            E_T0_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_UExpr::Va(),
            1 => E_T0_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_UStruct {
    Va(),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_T0_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_UStruct::Va() => D::Var(0, vec![]),
            E_T0_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_UStruct::Va(),
            1 => E_T0_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_NU8 {
    Va(),
    Vb(u8),
}
impl Subj for E_T0_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_NU8::Va() => D::Var(0, vec![]),
            E_T0_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_NU8::Va(),
            1 => E_T0_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_NStr {
    Va(),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_T0_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_NStr::Va() => D::Var(0, vec![]),
            E_T0_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_NStr::Va(),
            1 => E_T0_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_NOpt {
    Va(),
    Vb(Option<u8>),
}
impl Subj for E_T0_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_NOpt::Va() => D::Var(0, vec![]),
            E_T0_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_NOpt::Va(),
            1 => E_T0_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_NNS {
    Va(),
    Vb(NS),
}
impl Subj for E_T0_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_NNS::Va() => D::Var(0, vec![]),
            E_T0_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_NNS::Va(),
            1 => E_T0_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_NVec {
    Va(),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_T0_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_NVec::Va() => D::Var(0, vec![]),
            E_T0_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_NVec::Va(),
            1 => E_T0_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_Tup {
    Va(),
    Vb(u8, String),
}
impl Subj for E_T0_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_Tup::Va() => D::Var(0, vec![]),
            E_T0_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_Tup::Va(),
            1 => E_T0_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_TSkip {
    Va(),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_T0_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_TSkip::Va() => D::Var(0, vec![]),
            E_T0_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_TSkip::Va(),
            1 => E_T0_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_T0 {
    Va(),
    Vb(),
}
impl Subj for E_T0_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_T0::Va() => D::Var(0, vec![]),
            E_T0_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_T0::Va(),
            1 => E_T0_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_Named {
    Va(),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_T0_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_Named::Va() => D::Var(0, vec![]),
            E_T0_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_Named::Va(),
            1 => E_T0_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_NMix {
    Va(),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_T0_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_NMix::Va() => D::Var(0, vec![]),
            E_T0_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_NMix::Va(),
            1 => E_T0_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_N0 {
    Va(),
    Vb {  },
}
impl Subj for E_T0_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_N0::Va() => D::Var(0, vec![]),
            E_T0_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_N0::Va(),
            1 => E_T0_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_NArr {
    Va(),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_T0_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_NArr::Va() => D::Var(0, vec![]),
            E_T0_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_NArr::Va(),
            1 => E_T0_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_NUnk {
    Va(),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_T0_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_NUnk::Va() => D::Var(0, vec![]),
            E_T0_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_NUnk::Va(),
            1 => E_T0_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_SUnit {
    Va(),
    #[cbor(skip)] Vb,
}
impl Subj for E_T0_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_SUnit::Va() => D::Var(0, vec![]),
            E_T0_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_SUnit::Va(),
            1 => E_T0_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_SNew {
    Va(),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_T0_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_SNew::Va() => D::Var(0, vec![]),
            E_T0_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_SNew::Va(),
            1 => E_T0_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_EmA {
    Va(),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_T0_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_EmA::Va() => D::Var(0, vec![]),
            E_T0_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_EmA::Va(),
            1 => E_T0_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_EmB {
    Va(),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_T0_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_EmB::Va() => D::Var(0, vec![]),
            E_T0_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_EmB::Va(),
            1 => E_T0_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_NEN {
    Va(),
    Vb(EN),
}
impl Subj for E_T0_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_NEN::Va() => D::Var(0, vec![]),
            E_T0_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_NEN::Va(),
            1 => E_T0_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_Unit {
    Va { bb: u8, a: Option<String> },
    Vb,
}
impl Subj for E_Named_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_Unit::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_Unit::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_UText {
    Va { bb: u8, a: Option<String> },
    #[cbor(rename = "")] Vb,
}
impl Subj for E_Named_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_UText::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_UText::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_UNum {
    Va { bb: u8, a: Option<String> },
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_Named_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_UNum::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_UNum::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_Named_UDisc {
    Va { bb: u8, a: Option<String> },
    Vb = 2,
}
impl Subj for E_Named_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_UDisc::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_UDisc::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_Named_UExpr {
    Va { bb: u8, a: Option<String> },
    Vb = 41 * 100 + 23,
}
impl Subj for E_Named_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_UExpr::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_UExpr::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_UStruct {
    Va { bb: u8, a: Option<String> },
    #[cbor(as_struct)] Vb,
}
impl Subj for E_Named_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_UStruct::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_UStruct::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_NU8 {
    Va { bb: u8, a: Option<String> },
    Vb(u8),
}
impl Subj for E_Named_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_NU8::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_NU8::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_NStr {
    Va { bb: u8, a: Option<String> },
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_Named_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_NStr::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_NStr::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_NOpt {
    Va { bb: u8, a: Option<String> },
    Vb(Option<u8>),
}
impl Subj for E_Named_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_NOpt::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_NOpt::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_NNS {
    Va { bb: u8, a: Option<String> },
    Vb(NS),
}
impl Subj for E_Named_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_NNS::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_NNS::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_NVec {
    Va { bb: u8, a: Option<String> },
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_Named_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_NVec::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_NVec::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_Tup {
    Va { bb: u8, a: Option<String> },
    Vb(u8, String),
}
impl Subj for E_Named_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_Tup::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_Tup::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_TSkip {
    Va { bb: u8, a: Option<String> },
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_Named_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_TSkip::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_TSkip::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_T0 {
    Va { bb: u8, a: Option<String> },
    Vb(),
}
impl Subj for E_Named_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_T0::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_T0::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_Named {
    Va { bb: u8, a: Option<String> },
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_Named_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_Named::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_Named::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_NMix {
    Va { bb: u8, a: Option<String> },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_Named_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_NMix::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_NMix::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_N0 {
    Va { bb: u8, a: Option<String> },
    Vb {  },
}
impl Subj for E_Named_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_N0::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_N0::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_NArr {
    Va { bb: u8, a: Option<String> },
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_Named_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_NArr::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_NArr::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_NUnk {
    Va { bb: u8, a: Option<String> },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_Named_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_NUnk::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_NUnk::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_SUnit {
    Va { bb: u8, a: Option<String> },
    #[cbor(skip)] Vb,
}
impl Subj for E_Named_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_SUnit::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_SUnit::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_SNew {
    Va { bb: u8, a: Option<String> },
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_Named_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_SNew::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_SNew::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_EmA {
    Va { bb: u8, a: Option<String> },
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_Named_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_EmA::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_EmA::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_EmB {
    Va { bb: u8, a: Option<String> },
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_Named_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_EmB::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_EmB::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_NEN {
    Va { bb: u8, a: Option<String> },
    Vb(EN),
}
impl Subj for E_Named_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_NEN::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_NEN::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_Unit {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb,
}
impl Subj for E_NMix_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_Unit::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_Unit::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_UText {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = "")] Vb,
}
impl Subj for E_NMix_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_UText::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_UText::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_UNum {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_NMix_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_UNum::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_UNum::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NMix_UDisc {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb = 2,
}
impl Subj for E_NMix_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_UDisc::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_UDisc::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NMix_UExpr {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb = 41 * 100 + 23,
}
impl Subj for E_NMix_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_UExpr::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_UExpr::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_UStruct {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(as_struct)] Vb,
}
impl Subj for E_NMix_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_UStruct::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_UStruct::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_NU8 {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb(u8),
}
impl Subj for E_NMix_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_NU8::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_NU8::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_NStr {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_NMix_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_NStr::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_NStr::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_NOpt {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb(Option<u8>),
}
impl Subj for E_NMix_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_NOpt::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_NOpt::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_NNS {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb(NS),
}
impl Subj for E_NMix_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_NNS::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_NNS::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_NVec {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_NMix_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_NVec::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_NVec::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_Tup {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb(u8, String),
}
impl Subj for E_NMix_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_Tup::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_Tup::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_TSkip {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_NMix_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_TSkip::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_TSkip::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_T0 {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb(),
}
impl Subj for E_NMix_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_T0::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_T0::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_Named {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NMix_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_Named::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_Named::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_NMix {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_NMix_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_NMix::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_NMix::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_N0 {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb {  },
}
impl Subj for E_NMix_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_N0::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_N0::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_NArr {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NMix_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_NArr::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_NArr::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_NUnk {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_NMix_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_NUnk::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_NUnk::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_SUnit {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(skip)] Vb,
}
impl Subj for E_NMix_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_SUnit::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_SUnit::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_SNew {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_NMix_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_SNew::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_SNew::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_EmA {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_NMix_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_EmA::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_EmA::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_EmB {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_NMix_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_EmB::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_EmB::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_NEN {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb(EN),
}
impl Subj for E_NMix_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_NEN::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_NEN::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_Unit {
    Va {  },
    Vb,
}
impl Subj for E_N0_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_Unit::Va {  } => D::Var(0, vec![]),
            E_N0_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_Unit::Va {  },
            1 => E_N0_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_UText {
    Va {  },
    #[cbor(rename = "")] Vb,
}
impl Subj for E_N0_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_UText::Va {  } => D::Var(0, vec![]),
            E_N0_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_UText::Va {  },
            1 => E_N0_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_UNum {
    Va {  },
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_N0_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_UNum::Va {  } => D::Var(0, vec![]),
            E_N0_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_UNum::Va {  },
            1 => E_N0_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_N0_UDisc {
    Va {  },
    Vb = 2,
}
impl Subj for E_N0_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_UDisc::Va {  } => D::Var(0, vec![]),
            E_N0_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_UDisc::Va {  },
            1 => E_N0_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_N0_UExpr {
    Va {  },
    Vb = 41 * 100 + 23,
}
impl Subj for E_N0_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_UExpr::Va {  } => D::Var(0, vec![]),
            E_N0_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_UExpr::Va {  },
            1 => E_N0_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_UStruct {
    Va {  },
    #[cbor(as_struct)] Vb,
}
impl Subj for E_N0_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_UStruct::Va {  } => D::Var(0, vec![]),
            E_N0_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_UStruct::Va {  },
            1 => E_N0_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_NU8 {
    Va {  },
    Vb(u8),
}
impl Subj for E_N0_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_NU8::Va {  } => D::Var(0, vec![]),
            E_N0_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_NU8::Va {  },
            1 => E_N0_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_NStr {
    Va {  },
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_N0_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_NStr::Va {  } => D::Var(0, vec![]),
            E_N0_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_NStr::Va {  },
            1 => E_N0_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_NOpt {
    Va {  },
    Vb(Option<u8>),
}
impl Subj for E_N0_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_NOpt::Va {  } => D::Var(0, vec![]),
            E_N0_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_NOpt::Va {  },
            1 => E_N0_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_NNS {
    Va {  },
    Vb(NS),
}
impl Subj for E_N0_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_NNS::Va {  } => D::Var(0, vec![]),
            E_N0_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_NNS::Va {  },
            1 => E_N0_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_NVec {
    Va {  },
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_N0_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_NVec::Va {  } => D::Var(0, vec![]),
            E_N0_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_NVec::Va {  },
            1 => E_N0_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_Tup {
    Va {  },
    Vb(u8, String),
}
impl Subj for E_N0_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_Tup::Va {  } => D::Var(0, vec![]),
            E_N0_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_Tup::Va {  },
            1 => E_N0_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_TSkip {
    Va {  },
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_N0_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_TSkip::Va {  } => D::Var(0, vec![]),
            E_N0_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_TSkip::Va {  },
            1 => E_N0_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_T0 {
    Va {  },
    Vb(),
}
impl Subj for E_N0_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_T0::Va {  } => D::Var(0, vec![]),
            E_N0_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_T0::Va {  },
            1 => E_N0_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_Named {
    Va {  },
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_N0_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_Named::Va {  } => D::Var(0, vec![]),
            E_N0_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_Named::Va {  },
            1 => E_N0_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_NMix {
    Va {  },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_N0_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_NMix::Va {  } => D::Var(0, vec![]),
            E_N0_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_NMix::Va {  },
            1 => E_N0_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_N0 {
    Va {  },
    Vb {  },
}
impl Subj for E_N0_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_N0::Va {  } => D::Var(0, vec![]),
            E_N0_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_N0::Va {  },
            1 => E_N0_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_NArr {
    Va {  },
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_N0_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_NArr::Va {  } => D::Var(0, vec![]),
            E_N0_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_NArr::Va {  },
            1 => E_N0_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_NUnk {
    Va {  },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_N0_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_NUnk::Va {  } => D::Var(0, vec![]),
            E_N0_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_NUnk::Va {  },
            1 => E_N0_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_SUnit {
    Va {  },
    #[cbor(skip)] Vb,
}
impl Subj for E_N0_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_SUnit::Va {  } => D::Var(0, vec![]),
            E_N0_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_SUnit::Va {  },
            1 => E_N0_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_SNew {
    Va {  },
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_N0_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_SNew::Va {  } => D::Var(0, vec![]),
            E_N0_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_SNew::Va {  },
            1 => E_N0_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_EmA {
    Va {  },
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_N0_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_EmA::Va {  } => D::Var(0, vec![]),
            E_N0_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_EmA::Va {  },
            1 => E_N0_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_EmB {
    Va {  },
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_N0_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_EmB::Va {  } => D::Var(0, vec![]),
            E_N0_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_EmB::Va {  },
            1 => E_N0_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_NEN {
    Va {  },
    Vb(EN),
}
impl Subj for E_N0_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_NEN::Va {  } => D::Var(0, vec![]),
            E_N0_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_NEN::Va {  },
            1 => E_N0_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_Unit {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb,
}
impl Subj for E_NArr_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_Unit::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_Unit::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_UText {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(rename = "")] Vb,
}
impl Subj for E_NArr_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_UText::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_UText::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_UNum {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_NArr_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_UNum::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_UNum::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NArr_UDisc {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb = 2,
}
impl Subj for E_NArr_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_UDisc::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_UDisc::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NArr_UExpr {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb = 41 * 100 + 23,
}
impl Subj for E_NArr_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_UExpr::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_UExpr::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_UStruct {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(as_struct)] Vb,
}
impl Subj for E_NArr_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_UStruct::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_UStruct::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_NU8 {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb(u8),
}
impl Subj for E_NArr_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_NU8::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_NU8::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_NStr {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_NArr_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_NStr::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_NStr::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_NOpt {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb(Option<u8>),
}
impl Subj for E_NArr_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_NOpt::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_NOpt::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_NNS {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb(NS),
}
impl Subj for E_NArr_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_NNS::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_NNS::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_NVec {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_NArr_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_NVec::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_NVec::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_Tup {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb(u8, String),
}
impl Subj for E_NArr_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_Tup::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_Tup::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_TSkip {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_NArr_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_TSkip::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_TSkip::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_T0 {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb(),
}
impl Subj for E_NArr_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_T0::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_T0::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_Named {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NArr_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_Named::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_Named::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_NMix {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_NArr_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_NMix::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_NMix::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_N0 {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb {  },
}
impl Subj for E_NArr_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_N0::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_N0::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_NArr {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NArr_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_NArr::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_NArr::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_NUnk {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_NArr_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_NUnk::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_NUnk::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_SUnit {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(skip)] Vb,
}
impl Subj for E_NArr_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_SUnit::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_SUnit::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_SNew {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_NArr_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_SNew::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_SNew::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_EmA {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_NArr_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_EmA::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_EmA::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_EmB {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_NArr_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_EmB::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_EmB::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_NEN {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb(EN),
}
impl Subj for E_NArr_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_NEN::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_NEN::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_Unit {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb,
}
impl Subj for E_NUnk_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_Unit::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_Unit::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_UText {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = "")] Vb,
}
impl Subj for E_NUnk_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_UText::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_UText::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_UNum {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_NUnk_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_UNum::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_UNum::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NUnk_UDisc {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb = 2,
}
impl Subj for E_NUnk_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_UDisc::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_UDisc::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NUnk_UExpr {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb = 41 * 100 + 23,
}
impl Subj for E_NUnk_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_UExpr::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_UExpr::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_UStruct {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(as_struct)] Vb,
}
impl Subj for E_NUnk_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_UStruct::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_UStruct::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_NU8 {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb(u8),
}
impl Subj for E_NUnk_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_NU8::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_NU8::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_NStr {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_NUnk_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_NStr::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_NStr::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_NOpt {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb(Option<u8>),
}
impl Subj for E_NUnk_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_NOpt::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_NOpt::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_NNS {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb(NS),
}
impl Subj for E_NUnk_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_NNS::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_NNS::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_NVec {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_NUnk_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_NVec::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_NVec::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_Tup {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb(u8, String),
}
impl Subj for E_NUnk_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_Tup::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_Tup::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_TSkip {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_NUnk_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_TSkip::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_TSkip::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_T0 {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb(),
}
impl Subj for E_NUnk_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_T0::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_T0::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_Named {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NUnk_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_Named::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_Named::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_NMix {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_NUnk_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_NMix::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_NMix::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_N0 {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb {  },
}
impl Subj for E_NUnk_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_N0::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_N0::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_NArr {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NUnk_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_NArr::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_NArr::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_NUnk {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_NUnk_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_NUnk::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_NUnk::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_SUnit {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(skip)] Vb,
}
impl Subj for E_NUnk_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_SUnit::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_SUnit::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_SNew {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_NUnk_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_SNew::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_SNew::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_EmA {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_NUnk_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_EmA::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_EmA::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_EmB {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_NUnk_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_EmB::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_EmB::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_NEN {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb(EN),
}
impl Subj for E_NUnk_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_NEN::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_NEN::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_Unit {
    #[cbor(skip)] Va,
    Vb,
}
impl Subj for E_SUnit_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_Unit::Va => D::Var(0, vec![]),
            E_SUnit_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_Unit::Va,
            1 => E_SUnit_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_UText {
    #[cbor(skip)] Va,
    #[cbor(rename = "")] Vb,
}
impl Subj for E_SUnit_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_UText::Va => D::Var(0, vec![]),
            E_SUnit_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_UText::Va,
            1 => E_SUnit_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_UNum {
    #[cbor(skip)] Va,
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_SUnit_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_UNum::Va => D::Var(0, vec![]),
            E_SUnit_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_UNum::Va,
            1 => E_SUnit_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_SUnit_UDisc {
    #[cbor(skip)] Va,
    Vb = 2,
}
impl Subj for E_SUnit_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_UDisc::Va => D::Var(0, vec![]),
            E_SUnit_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_UDisc::Va,
            1 => E_SUnit_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_SUnit_UExpr {
    #[cbor(skip)] Va,
    Vb = 41 * 100 + 23,
}
impl Subj for E_SUnit_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_UExpr::Va => D::Var(0, vec![]),
            E_SUnit_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_UExpr::Va,
            1 => E_SUnit_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_UStruct {
    #[cbor(skip)] Va,
    #[cbor(as_struct)] Vb,
}
impl Subj for E_SUnit_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_UStruct::Va => D::Var(0, vec![]),
            E_SUnit_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_UStruct::Va,
            1 => E_SUnit_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_NU8 {
    #[cbor(skip)] Va,
    Vb(u8),
}
impl Subj for E_SUnit_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_NU8::Va => D::Var(0, vec![]),
            E_SUnit_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_NU8::Va,
            1 => E_SUnit_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_NStr {
    #[cbor(skip)] Va,
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_SUnit_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_NStr::Va => D::Var(0, vec![]),
            E_SUnit_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_NStr::Va,
            1 => E_SUnit_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_NOpt {
    #[cbor(skip)] Va,
    Vb(Option<u8>),
}
impl Subj for E_SUnit_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_NOpt::Va => D::Var(0, vec![]),
            E_SUnit_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_NOpt::Va,
            1 => E_SUnit_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_NNS {
    #[cbor(skip)] Va,
    Vb(NS),
}
impl Subj for E_SUnit_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_NNS::Va => D::Var(0, vec![]),
            E_SUnit_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_NNS::Va,
            1 => E_SUnit_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_NVec {
    #[cbor(skip)] Va,
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_SUnit_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_NVec::Va => D::Var(0, vec![]),
            E_SUnit_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_NVec::Va,
            1 => E_SUnit_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_Tup {
    #[cbor(skip)] Va,
    Vb(u8, String),
}
impl Subj for E_SUnit_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_Tup::Va => D::Var(0, vec![]),
            E_SUnit_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_Tup::Va,
            1 => E_SUnit_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_TSkip {
    #[cbor(skip)] Va,
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_SUnit_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_TSkip::Va => D::Var(0, vec![]),
            E_SUnit_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_TSkip::Va,
            1 => E_SUnit_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_T0 {
    #[cbor(skip)] Va,
    Vb(),
}
impl Subj for E_SUnit_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_T0::Va => D::Var(0, vec![]),
            E_SUnit_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_T0::Va,
            1 => E_SUnit_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_Named {
    #[cbor(skip)] Va,
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_SUnit_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_Named::Va => D::Var(0, vec![]),
            E_SUnit_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_Named::Va,
            1 => E_SUnit_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_NMix {
    #[cbor(skip)] Va,
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_SUnit_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_NMix::Va => D::Var(0, vec![]),
            E_SUnit_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_NMix::Va,
            1 => E_SUnit_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_N0 {
    #[cbor(skip)] Va,
    Vb {  },
}
impl Subj for E_SUnit_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_N0::Va => D::Var(0, vec![]),
            E_SUnit_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_N0::Va,
            1 => E_SUnit_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_NArr {
    #[cbor(skip)] Va,
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_SUnit_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_NArr::Va => D::Var(0, vec![]),
            E_SUnit_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_NArr::Va,
            1 => E_SUnit_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_NUnk {
    #[cbor(skip)] Va,
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_SUnit_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_NUnk::Va => D::Var(0, vec![]),
            E_SUnit_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_NUnk::Va,
            1 => E_SUnit_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_SUnit {
    #[cbor(skip)] Va,
    #[cbor(skip)] Vb,
}
impl Subj for E_SUnit_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_SUnit::Va => D::Var(0, vec![]),
            E_SUnit_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_SUnit::Va,
            1 => E_SUnit_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_SNew {
    #[cbor(skip)] Va,
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_SUnit_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_SNew::Va => D::Var(0, vec![]),
            E_SUnit_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_SNew::Va,
            1 => E_SUnit_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_EmA {
    #[cbor(skip)] Va,
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_SUnit_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_EmA::Va => D::Var(0, vec![]),
            E_SUnit_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_EmA::Va,
            1 => E_SUnit_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_EmB {
    #[cbor(skip)] Va,
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_SUnit_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_EmB::Va => D::Var(0, vec![]),
            E_SUnit_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_EmB::Va,
            1 => E_SUnit_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_NEN {
    #[cbor(skip)] Va,
    Vb(EN),
}
impl Subj for E_SUnit_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_NEN::Va => D::Var(0, vec![]),
            E_SUnit_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_NEN::Va,
            1 => E_SUnit_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_Unit {
    #[cbor(skip)] Va(u8),
    Vb,
}
impl Subj for E_SNew_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_Unit::Va(Subj::from_d(&v[0])),
            1 => E_SNew_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_UText {
    #[cbor(skip)] Va(u8),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_SNew_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_UText::Va(Subj::from_d(&v[0])),
            1 => E_SNew_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_UNum {
    #[cbor(skip)] Va(u8),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_SNew_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_UNum::Va(Subj::from_d(&v[0])),
            1 => E_SNew_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_SNew_UDisc {
    #[cbor(skip)] Va(u8),
    Vb = 2,
}
impl Subj for E_SNew_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_UDisc::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_UDisc::Va(Subj::from_d(&v[0])),
            1 => E_SNew_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_SNew_UExpr {
    #[cbor(skip)] Va(u8),
    Vb = 41 * 100 + 23,
}
impl Subj for E_SNew_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_UExpr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_UExpr::Va(Subj::from_d(&v[0])),
            1 => E_SNew_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_UStruct {
    #[cbor(skip)] Va(u8),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_SNew_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_UStruct::Va(Subj::from_d(&v[0])),
            1 => E_SNew_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_NU8 {
    #[cbor(skip)] Va(u8),
    Vb(u8),
}
impl Subj for E_SNew_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_NU8::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_NU8::Va(Subj::from_d(&v[0])),
            1 => E_SNew_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_NStr {
    #[cbor(skip)] Va(u8),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_SNew_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_NStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_NStr::Va(Subj::from_d(&v[0])),
            1 => E_SNew_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_NOpt {
    #[cbor(skip)] Va(u8),
    Vb(Option<u8>),
}
impl Subj for E_SNew_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_NOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_NOpt::Va(Subj::from_d(&v[0])),
            1 => E_SNew_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_NNS {
    #[cbor(skip)] Va(u8),
    Vb(NS),
}
impl Subj for E_SNew_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_NNS::Va(Subj::from_d(&v[0])),
            1 => E_SNew_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_NVec {
    #[cbor(skip)] Va(u8),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_SNew_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_NVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_NVec::Va(Subj::from_d(&v[0])),
            1 => E_SNew_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_Tup {
    #[cbor(skip)] Va(u8),
    Vb(u8, String),
}
impl Subj for E_SNew_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_Tup::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_Tup::Va(Subj::from_d(&v[0])),
            1 => E_SNew_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_TSkip {
    #[cbor(skip)] Va(u8),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_SNew_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_TSkip::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_TSkip::Va(Subj::from_d(&v[0])),
            1 => E_SNew_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_T0 {
    #[cbor(skip)] Va(u8),
    Vb(),
}
impl Subj for E_SNew_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_T0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_T0::Va(Subj::from_d(&v[0])),
            1 => E_SNew_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_Named {
    #[cbor(skip)] Va(u8),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_SNew_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_Named::Va(Subj::from_d(&v[0])),
            1 => E_SNew_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_NMix {
    #[cbor(skip)] Va(u8),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_SNew_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_NMix::Va(Subj::from_d(&v[0])),
            1 => E_SNew_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_N0 {
    #[cbor(skip)] Va(u8),
    Vb {  },
}
impl Subj for E_SNew_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_N0::Va(Subj::from_d(&v[0])),
            1 => E_SNew_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_NArr {
    #[cbor(skip)] Va(u8),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_SNew_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_NArr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_NArr::Va(Subj::from_d(&v[0])),
            1 => E_SNew_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_NUnk {
    #[cbor(skip)] Va(u8),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_SNew_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_NUnk::Va(Subj::from_d(&v[0])),
            1 => E_SNew_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_SUnit {
    #[cbor(skip)] Va(u8),
    #[cbor(skip)] Vb,
}
impl Subj for E_SNew_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_SUnit::Va(Subj::from_d(&v[0])),
            1 => E_SNew_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_SNew {
    #[cbor(skip)] Va(u8),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_SNew_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_SNew::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_SNew::Va(Subj::from_d(&v[0])),
            1 => E_SNew_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_EmA {
    #[cbor(skip)] Va(u8),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_SNew_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_EmA::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_EmA::Va(Subj::from_d(&v[0])),
            1 => E_SNew_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_EmB {
    #[cbor(skip)] Va(u8),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_SNew_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_EmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_EmB::Va(Subj::from_d(&v[0])),
            1 => E_SNew_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_NEN {
    #[cbor(skip)] Va(u8),
    Vb(EN),
}
impl Subj for E_SNew_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_NEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_NEN::Va(Subj::from_d(&v[0])),
            1 => E_SNew_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_Unit {
    #[cbor(embed)] Va(EA),
    Vb,
}
impl Subj for E_EmA_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_Unit::Va(Subj::from_d(&v[0])),
            1 => E_EmA_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_UText {
    #[cbor(embed)] Va(EA),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_EmA_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_UText::Va(Subj::from_d(&v[0])),
            1 => E_EmA_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_UNum {
    #[cbor(embed)] Va(EA),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_EmA_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_UNum::Va(Subj::from_d(&v[0])),
            1 => E_EmA_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_EmA_UDisc {
    #[cbor(embed)] Va(EA),
    Vb = 2,
}
impl Subj for E_EmA_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_UDisc::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_UDisc::Va(Subj::from_d(&v[0])),
            1 => E_EmA_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_EmA_UExpr {
    #[cbor(embed)] Va(EA),
    Vb = 41 * 100 + 23,
}
impl Subj for E_EmA_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_UExpr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_UExpr::Va(Subj::from_d(&v[0])),
            1 => E_EmA_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_UStruct {
    #[cbor(embed)] Va(EA),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_EmA_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_UStruct::Va(Subj::from_d(&v[0])),
            1 => E_EmA_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_NU8 {
    #[cbor(embed)] Va(EA),
    Vb(u8),
}
impl Subj for E_EmA_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_NU8::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_NU8::Va(Subj::from_d(&v[0])),
            1 => E_EmA_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_NStr {
    #[cbor(embed)] Va(EA),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_EmA_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_NStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_NStr::Va(Subj::from_d(&v[0])),
            1 => E_EmA_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_NOpt {
    #[cbor(embed)] Va(EA),
    Vb(Option<u8>),
}
impl Subj for E_EmA_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_NOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_NOpt::Va(Subj::from_d(&v[0])),
            1 => E_EmA_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_NNS {
    #[cbor(embed)] Va(EA),
    Vb(NS),
}
impl Subj for E_EmA_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_NNS::Va(Subj::from_d(&v[0])),
            1 => E_EmA_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_NVec {
    #[cbor(embed)] Va(EA),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_EmA_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_NVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_NVec::Va(Subj::from_d(&v[0])),
            1 => E_EmA_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_Tup {
    #[cbor(embed)] Va(EA),
    Vb(u8, String),
}
impl Subj for E_EmA_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_Tup::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_Tup::Va(Subj::from_d(&v[0])),
            1 => E_EmA_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_TSkip {
    #[cbor(embed)] Va(EA),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_EmA_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_TSkip::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_TSkip::Va(Subj::from_d(&v[0])),
            1 => E_EmA_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_T0 {
    #[cbor(embed)] Va(EA),
    Vb(),
}
impl Subj for E_EmA_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_T0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_T0::Va(Subj::from_d(&v[0])),
            1 => E_EmA_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_Named {
    #[cbor(embed)] Va(EA),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_EmA_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_Named::Va(Subj::from_d(&v[0])),
            1 => E_EmA_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_NMix {
    #[cbor(embed)] Va(EA),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_EmA_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_NMix::Va(Subj::from_d(&v[0])),
            1 => E_EmA_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_N0 {
    #[cbor(embed)] Va(EA),
    Vb {  },
}
impl Subj for E_EmA_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_N0::Va(Subj::from_d(&v[0])),
            1 => E_EmA_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_NArr {
    #[cbor(embed)] Va(EA),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_EmA_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_NArr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_NArr::Va(Subj::from_d(&v[0])),
            1 => E_EmA_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_NUnk {
    #[cbor(embed)] Va(EA),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_EmA_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_NUnk::Va(Subj::from_d(&v[0])),
            1 => E_EmA_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_SUnit {
    #[cbor(embed)] Va(EA),
    #[cbor(skip)] Vb,
}
impl Subj for E_EmA_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_SUnit::Va(Subj::from_d(&v[0])),
            1 => E_EmA_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_SNew {
    #[cbor(embed)] Va(EA),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_EmA_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_SNew::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_SNew::Va(Subj::from_d(&v[0])),
            1 => E_EmA_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_EmA {
    #[cbor(embed)] Va(EA),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_EmA_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_EmA".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_EmA::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_EmA::Va(Subj::from_d(&v[0])),
            1 => E_EmA_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_EmB {
    #[cbor(embed)] Va(EA),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_EmA_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_EmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_EmB::Va(Subj::from_d(&v[0])),
            1 => E_EmA_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_NEN {
    #[cbor(embed)] Va(EA),
    Vb(EN),
}
impl Subj for E_EmA_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_NEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_NEN::Va(Subj::from_d(&v[0])),
            1 => E_EmA_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_Unit {
    #[cbor(embed)] Va(EB),
    Vb,
}
impl Subj for E_EmB_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_Unit::Va(Subj::from_d(&v[0])),
            1 => E_EmB_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_UText {
    #[cbor(embed)] Va(EB),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_EmB_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_UText::Va(Subj::from_d(&v[0])),
            1 => E_EmB_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_UNum {
    #[cbor(embed)] Va(EB),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_EmB_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_UNum::Va(Subj::from_d(&v[0])),
            1 => E_EmB_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_EmB_UDisc {
    #[cbor(embed)] Va(EB),
    Vb = 2,
}
impl Subj for E_EmB_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_UDisc::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_UDisc::Va(Subj::from_d(&v[0])),
            1 => E_EmB_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_EmB_UExpr {
    #[cbor(embed)] Va(EB),
    Vb = 41 * 100 + 23,
}
impl Subj for E_EmB_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_UExpr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_UExpr::Va(Subj::from_d(&v[0])),
            1 => E_EmB_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_UStruct {
    #[cbor(embed)] Va(EB),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_EmB_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_UStruct::Va(Subj::from_d(&v[0])),
            1 => E_EmB_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_NU8 {
    #[cbor(embed)] Va(EB),
    Vb(u8),
}
impl Subj for E_EmB_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_NU8::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_NU8::Va(Subj::from_d(&v[0])),
            1 => E_EmB_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_NStr {
    #[cbor(embed)] Va(EB),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_EmB_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_NStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_NStr::Va(Subj::from_d(&v[0])),
            1 => E_EmB_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_NOpt {
    #[cbor(embed)] Va(EB),
    Vb(Option<u8>),
}
impl Subj for E_EmB_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_NOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_NOpt::Va(Subj::from_d(&v[0])),
            1 => E_EmB_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_NNS {
    #[cbor(embed)] Va(EB),
    Vb(NS),
}
impl Subj for E_EmB_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_NNS::Va(Subj::from_d(&v[0])),
            1 => E_EmB_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_NVec {
    #[cbor(embed)] Va(EB),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_EmB_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_NVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_NVec::Va(Subj::from_d(&v[0])),
            1 => E_EmB_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_Tup {
    #[cbor(embed)] Va(EB),
    Vb(u8, String),
}
impl Subj for E_EmB_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_Tup::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_Tup::Va(Subj::from_d(&v[0])),
            1 => E_EmB_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_TSkip {
    #[cbor(embed)] Va(EB),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_EmB_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_TSkip::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_TSkip::Va(Subj::from_d(&v[0])),
            1 => E_EmB_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_T0 {
    #[cbor(embed)] Va(EB),
    Vb(),
}
impl Subj for E_EmB_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_T0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_T0::Va(Subj::from_d(&v[0])),
            1 => E_EmB_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_Named {
    #[cbor(embed)] Va(EB),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_EmB_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_Named::Va(Subj::from_d(&v[0])),
            1 => E_EmB_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_NMix {
    #[cbor(embed)] Va(EB),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_EmB_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_NMix::Va(Subj::from_d(&v[0])),
            1 => E_EmB_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_N0 {
    #[cbor(embed)] Va(EB),
    Vb {  },
}
impl Subj for E_EmB_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_N0::Va(Subj::from_d(&v[0])),
            1 => E_EmB_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_NArr {
    #[cbor(embed)] Va(EB),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_EmB_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_NArr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_NArr::Va(Subj::from_d(&v[0])),
            1 => E_EmB_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_NUnk {
    #[cbor(embed)] Va(EB),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_EmB_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_NUnk::Va(Subj::from_d(&v[0])),
            1 => E_EmB_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_SUnit {
    #[cbor(embed)] Va(EB),
    #[cbor(skip)] Vb,
}
impl Subj for E_EmB_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_SUnit::Va(Subj::from_d(&v[0])),
            1 => E_EmB_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_SNew {
    #[cbor(embed)] Va(EB),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_EmB_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_SNew::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_SNew::Va(Subj::from_d(&v[0])),
            1 => E_EmB_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_EmA {
    #[cbor(embed)] Va(EB),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_EmB_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_EmA::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_EmA::Va(Subj::from_d(&v[0])),
            1 => E_EmB_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_EmB {
    #[cbor(embed)] Va(EB),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_EmB_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_EmB".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_EmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_EmB::Va(Subj::from_d(&v[0])),
            1 => E_EmB_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_NEN {
    #[cbor(embed)] Va(EB),
    Vb(EN),
}
impl Subj for E_EmB_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_NEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_NEN::Va(Subj::from_d(&v[0])),
            1 => E_EmB_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_Unit {
    Va(EN),
    Vb,
}
impl Subj for E_NEN_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_Unit::Va(Subj::from_d(&v[0])),
            1 => E_NEN_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_UText {
    Va(EN),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_NEN_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_UText::Va(Subj::from_d(&v[0])),
            1 => E_NEN_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_UNum {
    Va(EN),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_NEN_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_UNum::Va(Subj::from_d(&v[0])),
            1 => E_NEN_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NEN_UDisc {
    Va(EN),
    Vb = 2,
}
impl Subj for E_NEN_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_UDisc::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_UDisc::Va(Subj::from_d(&v[0])),
            1 => E_NEN_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NEN_UExpr {
    Va(EN),
    Vb = 41 * 100 + 23,
}
impl Subj for E_NEN_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_UExpr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_UExpr::Va(Subj::from_d(&v[0])),
            1 => E_NEN_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_UStruct {
    Va(EN),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_NEN_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_UStruct::Va(Subj::from_d(&v[0])),
            1 => E_NEN_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_NU8 {
    Va(EN),
    Vb(u8),
}
impl Subj for E_NEN_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_NU8::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_NU8::Va(Subj::from_d(&v[0])),
            1 => E_NEN_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_NStr {
    Va(EN),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_NEN_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_NStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_NStr::Va(Subj::from_d(&v[0])),
            1 => E_NEN_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_NOpt {
    Va(EN),
    Vb(Option<u8>),
}
impl Subj for E_NEN_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_NOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_NOpt::Va(Subj::from_d(&v[0])),
            1 => E_NEN_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_NNS {
    Va(EN),
    Vb(NS),
}
impl Subj for E_NEN_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_NNS::Va(Subj::from_d(&v[0])),
            1 => E_NEN_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_NVec {
    Va(EN),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_NEN_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_NVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_NVec::Va(Subj::from_d(&v[0])),
            1 => E_NEN_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_Tup {
    Va(EN),
    Vb(u8, String),
}
impl Subj for E_NEN_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_Tup::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_Tup::Va(Subj::from_d(&v[0])),
            1 => E_NEN_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_TSkip {
    Va(EN),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_NEN_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_TSkip::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_TSkip::Va(Subj::from_d(&v[0])),
            1 => E_NEN_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_T0 {
    Va(EN),
    Vb(),
}
impl Subj for E_NEN_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_T0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_T0::Va(Subj::from_d(&v[0])),
            1 => E_NEN_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_Named {
    Va(EN),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NEN_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_Named::Va(Subj::from_d(&v[0])),
            1 => E_NEN_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_NMix {
    Va(EN),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_NEN_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_NMix::Va(Subj::from_d(&v[0])),
            1 => E_NEN_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_N0 {
    Va(EN),
    Vb {  },
}
impl Subj for E_NEN_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_N0::Va(Subj::from_d(&v[0])),
            1 => E_NEN_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_NArr {
    Va(EN),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NEN_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_NArr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_NArr::Va(Subj::from_d(&v[0])),
            1 => E_NEN_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_NUnk {
    Va(EN),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_NEN_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_NUnk::Va(Subj::from_d(&v[0])),
            1 => E_NEN_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_SUnit {
    Va(EN),
    #[cbor(skip)] Vb,
}
impl Subj for E_NEN_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_SUnit::Va(Subj::from_d(&v[0])),
            1 => E_NEN_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_SNew {
    Va(EN),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_NEN_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_SNew::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_SNew::Va(Subj::from_d(&v[0])),
            1 => E_NEN_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_EmA {
    Va(EN),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_NEN_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_EmA::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_EmA::Va(Subj::from_d(&v[0])),
            1 => E_NEN_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_EmB {
    Va(EN),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_NEN_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_EmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_EmB::Va(Subj::from_d(&v[0])),
            1 => E_NEN_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_NEN {
    Va(EN),
    Vb(EN),
}
impl Subj for E_NEN_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_NEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_NEN::Va(Subj::from_d(&v[0])),
            1 => E_NEN_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmS_Unit {
    #[cbor(embed)] Va(NM),
    Vb,
}
impl Subj for E_EmS_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmS_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmS_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmS_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmS_Unit::Va(Subj::from_d(&v[0])),
            1 => E_EmS_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_EmS {
    Va,
    #[cbor(embed)] Vb(NM),
}
impl Subj for E_Unit_EmS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_EmS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_EmS::Va => D::Var(0, vec![]),
            E_Unit_EmS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_EmS::Va,
            1 => E_Unit_EmS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmS_Tup {
    #[cbor(embed)] Va(NM),
    Vb(u8, String),
}
impl Subj for E_EmS_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmS_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmS_Tup::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmS_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmS_Tup::Va(Subj::from_d(&v[0])),
            1 => E_EmS_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_EmS {
    Va(u8, String),
    #[cbor(embed)] Vb(NM),
}
impl Subj for E_Tup_EmS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_EmS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_EmS::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_EmS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_EmS::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_EmS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmX_UStruct {
    #[cbor(embed)] Va(EX),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_EmX_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmX_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmX_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmX_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmX_UStruct::Va(Subj::from_d(&v[0])),
            1 => E_EmX_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_EmX {
    #[cbor(as_struct)] Va,
    #[cbor(embed)] Vb(EX),
}
impl Subj for E_UStruct_EmX {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_EmX".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_EmX::Va => D::Var(0, vec![]),
            E_UStruct_EmX::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_EmX::Va,
            1 => E_UStruct_EmX::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmX_N0 {
    #[cbor(embed)] Va(EX),
    Vb {  },
}
impl Subj for E_EmX_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmX_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmX_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmX_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmX_N0::Va(Subj::from_d(&v[0])),
            1 => E_EmX_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_EmX {
    Va {  },
    #[cbor(embed)] Vb(EX),
}
impl Subj for E_N0_EmX {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_EmX".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_EmX::Va {  } => D::Var(0, vec![]),
            E_N0_EmX::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_EmX::Va {  },
            1 => E_N0_EmX::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNamed_NVec {
    #[cbor(skip)] Va { bb: u8, a: Option<String> },
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_SNamed_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNamed_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNamed_NVec::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_SNamed_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNamed_NVec::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_SNamed_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_SNamed {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    #[cbor(skip)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NVec_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_SNamed".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_SNamed::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_SNamed::Va(Subj::from_d(&v[0])),
            1 => E_NVec_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNamed_EmA {
    #[cbor(skip)] Va { bb: u8, a: Option<String> },
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_SNamed_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNamed_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNamed_EmA::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_SNamed_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNamed_EmA::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_SNamed_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_SNamed {
    #[cbor(embed)] Va(EA),
    #[cbor(skip)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_EmA_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_SNamed".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_SNamed::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_SNamed::Va(Subj::from_d(&v[0])),
            1 => E_EmA_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SEmA_NMix {
    #[cbor(embed, skip)] Va(EA),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_SEmA_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SEmA_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SEmA_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SEmA_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SEmA_NMix::Va(Subj::from_d(&v[0])),
            1 => E_SEmA_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_SEmA {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(embed, skip)] Vb(EA),
}
impl Subj for E_NMix_SEmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_SEmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_SEmA::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_SEmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_SEmA::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_SEmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SEmA_UNum {
    #[cbor(embed, skip)] Va(EA),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_SEmA_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SEmA_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SEmA_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SEmA_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SEmA_UNum::Va(Subj::from_d(&v[0])),
            1 => E_SEmA_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_SEmA {
    #[cbor(rename = 7)] Va,
    #[cbor(embed, skip)] Vb(EA),
}
impl Subj for E_UNum_SEmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_SEmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_SEmA::Va => D::Var(0, vec![]),
            E_UNum_SEmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_SEmA::Va,
            1 => E_UNum_SEmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SEmB_SNew {
    #[cbor(skip, embed)] Va(EB),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_SEmB_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SEmB_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SEmB_SNew::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SEmB_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SEmB_SNew::Va(Subj::from_d(&v[0])),
            1 => E_SEmB_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_SEmB {
    #[cbor(skip)] Va(u8),
    #[cbor(skip, embed)] Vb(EB),
}
impl Subj for E_SNew_SEmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_SEmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_SEmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_SEmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_SEmB::Va(Subj::from_d(&v[0])),
            1 => E_SNew_SEmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SEmB_NStr {
    #[cbor(skip, embed)] Va(EB),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_SEmB_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SEmB_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SEmB_NStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SEmB_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SEmB_NStr::Va(Subj::from_d(&v[0])),
            1 => E_SEmB_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_SEmB {
    #[cbor(rename = 7)] Va(String),
    #[cbor(skip, embed)] Vb(EB),
}
impl Subj for E_NStr_SEmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_SEmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_SEmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_SEmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_SEmB::Va(Subj::from_d(&v[0])),
            1 => E_NStr_SEmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_SDisc_UText {
    #[cbor(skip)] Va = 5,
    #[cbor(rename = "")] Vb,
}
impl Subj for E_SDisc_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SDisc_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(5)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SDisc_UText::Va => D::Var(0, vec![]),
            E_SDisc_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SDisc_UText::Va,
            1 => E_SDisc_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UText_SDisc {
    #[cbor(rename = "n0")] Va,
    #[cbor(skip)] Vb = 6,
}
impl Subj for E_UText_SDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_SDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(6)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_SDisc::Va => D::Var(0, vec![]),
            E_UText_SDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_SDisc::Va,
            1 => E_UText_SDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_SDisc_TSkip {
    #[cbor(skip)] Va = 5,
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_SDisc_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SDisc_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(5)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SDisc_TSkip::Va => D::Var(0, vec![]),
            E_SDisc_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SDisc_TSkip::Va,
            1 => E_SDisc_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_TSkip_SDisc {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    #[cbor(skip)] Vb = 6,
}
impl Subj for E_TSkip_SDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_SDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(6)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_SDisc::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_SDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_SDisc::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_SDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SRen_NU8 {
    #[cbor(skip, rename = 7)] Va,
    Vb(u8),
}
impl Subj for E_SRen_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SRen_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SRen_NU8::Va => D::Var(0, vec![]),
            E_SRen_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SRen_NU8::Va,
            1 => E_SRen_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_SRen {
    Va(u8),
    #[cbor(skip, rename = 300)] Vb,
}
impl Subj for E_NU8_SRen {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_SRen".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_SRen::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_SRen::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_SRen::Va(Subj::from_d(&v[0])),
            1 => E_NU8_SRen::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SRen_NArr {
    #[cbor(skip, rename = 7)] Va,
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_SRen_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SRen_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SRen_NArr::Va => D::Var(0, vec![]),
            E_SRen_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SRen_NArr::Va,
            1 => E_SRen_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_SRen {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(skip, rename = 300)] Vb,
}
impl Subj for E_NArr_SRen {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_SRen".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_SRen::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_SRen::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_SRen::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_SRen::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SStruct_Tup {
    #[cbor(skip, as_struct)] Va,
    Vb(u8, String),
}
impl Subj for E_SStruct_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SStruct_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SStruct_Tup::Va => D::Var(0, vec![]),
            E_SStruct_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SStruct_Tup::Va,
            1 => E_SStruct_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_SStruct {
    Va(u8, String),
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for E_Tup_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_SStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_SStruct::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_SStruct::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SStruct_EmB {
    #[cbor(skip, as_struct)] Va,
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_SStruct_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SStruct_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SStruct_EmB::Va => D::Var(0, vec![]),
            E_SStruct_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SStruct_EmB::Va,
            1 => E_SStruct_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_SStruct {
    #[cbor(embed)] Va(EB),
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for E_EmB_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_SStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_SStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_SStruct::Va(Subj::from_d(&v[0])),
            1 => E_EmB_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_STup_N0 {
    #[cbor(skip)] Va(u8, u8),
    Vb {  },
}
impl Subj for E_STup_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_STup_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_STup_N0::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_STup_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_STup_N0::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_STup_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_STup {
    Va {  },
    #[cbor(skip)] Vb(u8, u8),
}
impl Subj for E_N0_STup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_STup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_STup::Va {  } => D::Var(0, vec![]),
            E_N0_STup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_STup::Va {  },
            1 => E_N0_STup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_STup_UDisc {
    #[cbor(skip)] Va(u8, u8),
    Vb = 2,
}
impl Subj for E_STup_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_STup_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_STup_UDisc::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_STup_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_STup_UDisc::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_STup_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_STup {
    Va = 1,
    #[cbor(skip)] Vb(u8, u8),
}
impl Subj for E_UDisc_STup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_STup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_STup::Va => D::Var(0, vec![]),
            E_UDisc_STup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_STup::Va,
            1 => E_UDisc_STup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SArr_EmA {
    #[cbor(as_array, skip)] Va { bb: u8, a: Option<String> },
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_SArr_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SArr_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SArr_EmA::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_SArr_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SArr_EmA::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_SArr_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_SArr {
    #[cbor(embed)] Va(EA),
    #[cbor(as_array, skip)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_EmA_SArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_SArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_SArr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_SArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_SArr::Va(Subj::from_d(&v[0])),
            1 => E_EmA_SArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SArr_NOpt {
    #[cbor(as_array, skip)] Va { bb: u8, a: Option<String> },
    Vb(Option<u8>),
}
impl Subj for E_SArr_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SArr_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SArr_NOpt::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_SArr_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SArr_NOpt::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_SArr_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_SArr {
    Va(Option<u8>),
    #[cbor(as_array, skip)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NOpt_SArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_SArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_SArr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_SArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_SArr::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_SArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNone_UNum {
    #[cbor(skip)] Va(Option<u8>),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_SNone_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNone_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNone_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNone_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNone_UNum::Va(Subj::from_d(&v[0])),
            1 => E_SNone_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_SNone {
    #[cbor(rename = 7)] Va,
    #[cbor(skip)] Vb(Option<u8>),
}
impl Subj for E_UNum_SNone {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_SNone".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_SNone::Va => D::Var(0, vec![]),
            E_UNum_SNone::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_SNone::Va,
            1 => E_UNum_SNone::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNone_T0 {
    #[cbor(skip)] Va(Option<u8>),
    Vb(),
}
impl Subj for E_SNone_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNone_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNone_T0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNone_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNone_T0::Va(Subj::from_d(&v[0])),
            1 => E_SNone_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_SNone {
    Va(),
    #[cbor(skip)] Vb(Option<u8>),
}
impl Subj for E_T0_SNone {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_SNone".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_SNone::Va() => D::Var(0, vec![]),
            E_T0_SNone::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_SNone::Va(),
            1 => E_T0_SNone::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCod_NStr {
    Va { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] c: u16, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] b: u16, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] a: Vec<u8> },
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_NCod_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCod_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("c"), <u16 as Subj>::ty()).coded(num()), fld(t("b"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCod_NStr::Va { c: x0, b: x1, a: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NCod_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCod_NStr::Va { c: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) },
            1 => E_NCod_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_NCod {
    #[cbor(rename = 7)] Va(String),
    Vb { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] c: u16, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] b: u16, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] a: Vec<u8> },
}
impl Subj for E_NStr_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_NCod".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("c"), <u16 as Subj>::ty()).coded(num()), fld(t("b"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_NCod::Vb { c: x0, b: x1, a: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_NCod::Va(Subj::from_d(&v[0])),
            1 => E_NStr_NCod::Vb { c: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCod_NUnk {
    Va { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] c: u16, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] b: u16, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] a: Vec<u8> },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_NCod_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCod_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("c"), <u16 as Subj>::ty()).coded(num()), fld(t("b"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCod_NUnk::Va { c: x0, b: x1, a: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NCod_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCod_NUnk::Va { c: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) },
            1 => E_NCod_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_NCod {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] c: u16, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] b: u16, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] a: Vec<u8> },
}
impl Subj for E_NUnk_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_NCod".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("c"), <u16 as Subj>::ty()).coded(num()), fld(t("b"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_NCod::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_NCod::Vb { c: x0, b: x1, a: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_NCod::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_NCod::Vb { c: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TCod_TSkip {
    Va(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16, u8),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_TCod_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TCod_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TCod_TSkip::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_TCod_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TCod_TSkip::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_TCod_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_TCod {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16, u8),
}
impl Subj for E_TSkip_TCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_TCod".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_TCod::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_TCod::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_TCod::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_TCod::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TCod_NEN {
    Va(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16, u8),
    Vb(EN),
}
impl Subj for E_TCod_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TCod_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TCod_NEN::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_TCod_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TCod_NEN::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_TCod_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_TCod {
    Va(EN),
    Vb(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16, u8),
}
impl Subj for E_NEN_TCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_TCod".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_TCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_TCod::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_TCod::Va(Subj::from_d(&v[0])),
            1 => E_NEN_TCod::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSk1_NArr {
    Va(#[cbor(skip)] u8, u16),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_TSk1_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSk1_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).skipped(), fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSk1_NArr::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_TSk1_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSk1_NArr::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_TSk1_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_TSk1 {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb(#[cbor(skip)] u8, u16),
}
impl Subj for E_NArr_TSk1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_TSk1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).skipped(), fld(NULL, <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_TSk1::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_TSk1::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_TSk1::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_TSk1::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_TSk1_UExpr {
    Va(#[cbor(skip)] u8, u16),
    Vb = 41 * 100 + 23,
}
impl Subj for E_TSk1_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSk1_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).skipped(), fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSk1_UExpr::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_TSk1_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSk1_UExpr::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_TSk1_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_TSk1 {
    Va = -(1 << 8),
    Vb(#[cbor(skip)] u8, u16),
}
impl Subj for E_UExpr_TSk1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_TSk1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).skipped(), fld(NULL, <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_TSk1::Va => D::Var(0, vec![]),
            E_UExpr_TSk1::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_TSk1::Va,
            1 => E_UExpr_TSk1::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCNum_EmB {
    Va(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_NCNum_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCNum_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCNum_EmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NCNum_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCNum_EmB::Va(Subj::from_d(&v[0])),
            1 => E_NCNum_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_NCNum {
    #[cbor(embed)] Va(EB),
    Vb(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16),
}
impl Subj for E_EmB_NCNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_NCNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_NCNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_NCNum::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_NCNum::Va(Subj::from_d(&v[0])),
            1 => E_EmB_NCNum::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCNum_NNS {
    Va(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16),
    Vb(NS),
}
impl Subj for E_NCNum_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCNum_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCNum_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NCNum_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCNum_NNS::Va(Subj::from_d(&v[0])),
            1 => E_NCNum_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_NCNum {
    Va(NS),
    Vb(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16),
}
impl Subj for E_NNS_NCNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_NCNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_NCNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_NCNum::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_NCNum::Va(Subj::from_d(&v[0])),
            1 => E_NNS_NCNum::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NCPos_UDisc {
    Va(#[cbor(serialize_with = "ser_pos", deserialize_with = "de_pos")] u16),
    Vb = 2,
}
impl Subj for E_NCPos_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCPos_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(pos())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCPos_UDisc::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NCPos_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCPos_UDisc::Va(Subj::from_d(&v[0])),
            1 => E_NCPos_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_NCPos {
    Va = 1,
    Vb(#[cbor(serialize_with = "ser_pos", deserialize_with = "de_pos")] u16),
}
impl Subj for E_UDisc_NCPos {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_NCPos".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(pos())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_NCPos::Va => D::Var(0, vec![]),
            E_UDisc_NCPos::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_NCPos::Va,
            1 => E_UDisc_NCPos::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCPos_Named {
    Va(#[cbor(serialize_with = "ser_pos", deserialize_with = "de_pos")] u16),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NCPos_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCPos_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(pos())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCPos_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NCPos_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCPos_Named::Va(Subj::from_d(&v[0])),
            1 => E_NCPos_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_NCPos {
    Va { bb: u8, a: Option<String> },
    Vb(#[cbor(serialize_with = "ser_pos", deserialize_with = "de_pos")] u16),
}
impl Subj for E_Named_NCPos {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_NCPos".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(pos())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_NCPos::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_NCPos::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_NCPos::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_NCPos::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCSer_NOpt {
    Va(#[cbor(serialize_with = "ser_clamp")] u8),
    Vb(Option<u8>),
}
impl Subj for E_NCSer_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCSer_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCSer_NOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NCSer_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCSer_NOpt::Va(Subj::from_d(&v[0])),
            1 => E_NCSer_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_NCSer {
    Va(Option<u8>),
    Vb(#[cbor(serialize_with = "ser_clamp")] u8),
}
impl Subj for E_NOpt_NCSer {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_NCSer".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_NCSer::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_NCSer::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_NCSer::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_NCSer::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCSer_SUnit {
    Va(#[cbor(serialize_with = "ser_clamp")] u8),
    #[cbor(skip)] Vb,
}
impl Subj for E_NCSer_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCSer_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCSer_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NCSer_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCSer_SUnit::Va(Subj::from_d(&v[0])),
            1 => E_NCSer_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_NCSer {
    #[cbor(skip)] Va,
    Vb(#[cbor(serialize_with = "ser_clamp")] u8),
}
impl Subj for E_SUnit_NCSer {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_NCSer".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_NCSer::Va => D::Var(0, vec![]),
            E_SUnit_NCSer::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_NCSer::Va,
            1 => E_SUnit_NCSer::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCDe_T0 {
    Va(#[cbor(deserialize_with = "de_inc")] u8),
    Vb(),
}
impl Subj for E_NCDe_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCDe_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(inc())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCDe_T0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NCDe_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCDe_T0::Va(Subj::from_d(&v[0])),
            1 => E_NCDe_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_NCDe {
    Va(),
    Vb(#[cbor(deserialize_with = "de_inc")] u8),
}
impl Subj for E_T0_NCDe {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_NCDe".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(inc())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_NCDe::Va() => D::Var(0, vec![]),
            E_T0_NCDe::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_NCDe::Va(),
            1 => E_T0_NCDe::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCDe_Unit {
    Va(#[cbor(deserialize_with = "de_inc")] u8),
    Vb,
}
impl Subj for E_NCDe_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCDe_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(inc())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCDe_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NCDe_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCDe_Unit::Va(Subj::from_d(&v[0])),
            1 => E_NCDe_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_NCDe {
    Va,
    Vb(#[cbor(deserialize_with = "de_inc")] u8),
}
impl Subj for E_Unit_NCDe {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_NCDe".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(inc())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_NCDe::Va => D::Var(0, vec![]),
            E_Unit_NCDe::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_NCDe::Va,
            1 => E_Unit_NCDe::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCWrap_NUnk {
    Va(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] Vec<u8>),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_NCWrap_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCWrap_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCWrap_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NCWrap_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCWrap_NUnk::Va(Subj::from_d(&v[0])),
            1 => E_NCWrap_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_NCWrap {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] Vec<u8>),
}
impl Subj for E_NUnk_NCWrap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_NCWrap".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_NCWrap::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_NCWrap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_NCWrap::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_NCWrap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCWrap_UStruct {
    Va(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] Vec<u8>),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_NCWrap_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCWrap_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCWrap_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NCWrap_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCWrap_UStruct::Va(Subj::from_d(&v[0])),
            1 => E_NCWrap_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_NCWrap {
    #[cbor(as_struct)] Va,
    Vb(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] Vec<u8>),
}
impl Subj for E_UStruct_NCWrap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_NCWrap".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_NCWrap::Va => D::Var(0, vec![]),
            E_UStruct_NCWrap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_NCWrap::Va,
            1 => E_UStruct_NCWrap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCUnder_NEN {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    Vb(EN),
}
impl Subj for E_NCUnder_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCUnder_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCUnder_NEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NCUnder_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCUnder_NEN::Va(Subj::from_d(&v[0])),
            1 => E_NCUnder_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_NCUnder {
    Va(EN),
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for E_NEN_NCUnder {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_NCUnder".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_NCUnder::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_NCUnder::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_NCUnder::Va(Subj::from_d(&v[0])),
            1 => E_NEN_NCUnder::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NCUnder_NVec {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_NCUnder_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NCUnder_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NCUnder_NVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NCUnder_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NCUnder_NVec::Va(Subj::from_d(&v[0])),
            1 => E_NCUnder_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_NCUnder {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for E_NVec_NCUnder {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_NCUnder".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_NCUnder::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_NCUnder::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_NCUnder::Va(Subj::from_d(&v[0])),
            1 => E_NVec_NCUnder::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NSkp_UExpr {
    Va(#[cbor(skip)] u32),
    Vb = 41 * 100 + 23,
}
impl Subj for E_NSkp_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NSkp_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u32 as Subj>::ty()).skipped()] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NSkp_UExpr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NSkp_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NSkp_UExpr::Va(Subj::from_d(&v[0])),
            1 => E_NSkp_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_NSkp {
    Va = -(1 << 8),
    Vb(#[cbor(skip)] u32),
}
impl Subj for E_UExpr_NSkp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_NSkp".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u32 as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_NSkp::Va => D::Var(0, vec![]),
            E_UExpr_NSkp::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_NSkp::Va,
            1 => E_UExpr_NSkp::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NSkp_NMix {
    Va(#[cbor(skip)] u32),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_NSkp_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NSkp_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u32 as Subj>::ty()).skipped()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NSkp_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NSkp_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NSkp_NMix::Va(Subj::from_d(&v[0])),
            1 => E_NSkp_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_NSkp {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb(#[cbor(skip)] u32),
}
impl Subj for E_NMix_NSkp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_NSkp".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u32 as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_NSkp::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_NSkp::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_NSkp::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_NSkp::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NSkN_NNS {
    #[cbor(rename = 7)] Va(#[cbor(skip)] NS),
    Vb(NS),
}
impl Subj for E_NSkN_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NSkN_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()).skipped()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NSkN_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NSkN_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NSkN_NNS::Va(Subj::from_d(&v[0])),
            1 => E_NSkN_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_NSkN {
    Va(NS),
    #[cbor(rename = 300)] Vb(#[cbor(skip)] NS),
}
impl Subj for E_NNS_NSkN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_NSkN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_NSkN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_NSkN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_NSkN::Va(Subj::from_d(&v[0])),
            1 => E_NNS_NSkN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NSkN_SNew {
    #[cbor(rename = 7)] Va(#[cbor(skip)] NS),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_NSkN_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NSkN_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()).skipped()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NSkN_SNew::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NSkN_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NSkN_SNew::Va(Subj::from_d(&v[0])),
            1 => E_NSkN_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_NSkN {
    #[cbor(skip)] Va(u8),
    #[cbor(rename = 300)] Vb(#[cbor(skip)] NS),
}
impl Subj for E_SNew_NSkN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_NSkN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_NSkN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_NSkN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_NSkN::Va(Subj::from_d(&v[0])),
            1 => E_SNew_NSkN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmC_Named {
    #[cbor(embed)] Va(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] Vec<u8>),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_EmC_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmC_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmC_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmC_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmC_Named::Va(Subj::from_d(&v[0])),
            1 => E_EmC_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_EmC {
    Va { bb: u8, a: Option<String> },
    #[cbor(embed)] Vb(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] Vec<u8>),
}
impl Subj for E_Named_EmC {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_EmC".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_EmC::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_EmC::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_EmC::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_EmC::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmC_UText {
    #[cbor(embed)] Va(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] Vec<u8>),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_EmC_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmC_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmC_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmC_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmC_UText::Va(Subj::from_d(&v[0])),
            1 => E_EmC_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_EmC {
    #[cbor(rename = "n0")] Va,
    #[cbor(embed)] Vb(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] Vec<u8>),
}
impl Subj for E_UText_EmC {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_EmC".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_EmC::Va => D::Var(0, vec![]),
            E_UText_EmC::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_EmC::Va,
            1 => E_UText_EmC::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmD_SUnit {
    #[cbor(embed)] Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(skip)] Vb,
}
impl Subj for E_EmD_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmD_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmD_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmD_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmD_SUnit::Va(Subj::from_d(&v[0])),
            1 => E_EmD_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_EmD {
    #[cbor(skip)] Va,
    #[cbor(embed)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for E_SUnit_EmD {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_EmD".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_EmD::Va => D::Var(0, vec![]),
            E_SUnit_EmD::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_EmD::Va,
            1 => E_SUnit_EmD::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmD_NU8 {
    #[cbor(embed)] Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    Vb(u8),
}
impl Subj for E_EmD_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmD_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmD_NU8::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmD_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmD_NU8::Va(Subj::from_d(&v[0])),
            1 => E_EmD_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_EmD {
    Va(u8),
    #[cbor(embed)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for E_NU8_EmD {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_EmD".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_EmD::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_EmD::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_EmD::Va(Subj::from_d(&v[0])),
            1 => E_NU8_EmD::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnit_Unit {
    Va(()),
    Vb,
}
impl Subj for E_NUnit_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnit_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <() as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnit_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NUnit_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnit_Unit::Va(Subj::from_d(&v[0])),
            1 => E_NUnit_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_NUnit {
    Va,
    Vb(()),
}
impl Subj for E_Unit_NUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_NUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <() as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_NUnit::Va => D::Var(0, vec![]),
            E_Unit_NUnit::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_NUnit::Va,
            1 => E_Unit_NUnit::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnit_Tup {
    Va(()),
    Vb(u8, String),
}
impl Subj for E_NUnit_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnit_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <() as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnit_Tup::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NUnit_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnit_Tup::Va(Subj::from_d(&v[0])),
            1 => E_NUnit_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_NUnit {
    Va(u8, String),
    Vb(()),
}
impl Subj for E_Tup_NUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_NUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <() as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_NUnit::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_NUnit::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_NUnit::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_NUnit::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVal_UStruct {
    Va(Value),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_NVal_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVal_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Value as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVal_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVal_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVal_UStruct::Va(Subj::from_d(&v[0])),
            1 => E_NVal_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_NVal {
    #[cbor(as_struct)] Va,
    Vb(Value),
}
impl Subj for E_UStruct_NVal {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_NVal".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Value as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_NVal::Va => D::Var(0, vec![]),
            E_UStruct_NVal::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_NVal::Va,
            1 => E_UStruct_NVal::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVal_N0 {
    Va(Value),
    Vb {  },
}
impl Subj for E_NVal_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVal_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Value as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVal_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVal_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVal_N0::Va(Subj::from_d(&v[0])),
            1 => E_NVal_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_NVal {
    Va {  },
    Vb(Value),
}
impl Subj for E_N0_NVal {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_NVal".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Value as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_NVal::Va {  } => D::Var(0, vec![]),
            E_N0_NVal::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_NVal::Va {  },
            1 => E_N0_NVal::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUN_NVec {
    Va(UN),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_NUN_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUN_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <UN as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUN_NVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NUN_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUN_NVec::Va(Subj::from_d(&v[0])),
            1 => E_NUN_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_NUN {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb(UN),
}
impl Subj for E_NVec_NUN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_NUN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <UN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_NUN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_NUN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_NUN::Va(Subj::from_d(&v[0])),
            1 => E_NVec_NUN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUN_EmA {
    Va(UN),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_NUN_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUN_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <UN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUN_EmA::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NUN_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUN_EmA::Va(Subj::from_d(&v[0])),
            1 => E_NUN_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_NUN {
    #[cbor(embed)] Va(EA),
    Vb(UN),
}
impl Subj for E_EmA_NUN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_NUN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <UN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_NUN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_NUN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_NUN::Va(Subj::from_d(&v[0])),
            1 => E_EmA_NUN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NND_NMix {
    Va(ND),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_NND_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NND_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <ND as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NND_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NND_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NND_NMix::Va(Subj::from_d(&v[0])),
            1 => E_NND_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_NND {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb(ND),
}
impl Subj for E_NMix_NND {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_NND".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <ND as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_NND::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_NND::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_NND::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_NND::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NND_UNum {
    Va(ND),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_NND_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NND_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <ND as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NND_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NND_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NND_UNum::Va(Subj::from_d(&v[0])),
            1 => E_NND_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_NND {
    #[cbor(rename = 7)] Va,
    Vb(ND),
}
impl Subj for E_UNum_NND {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_NND".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <ND as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_NND::Va => D::Var(0, vec![]),
            E_UNum_NND::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_NND::Va,
            1 => E_UNum_NND::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NTW_SNew {
    Va(TW),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_NTW_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NTW_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TW as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NTW_SNew::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NTW_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NTW_SNew::Va(Subj::from_d(&v[0])),
            1 => E_NTW_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_NTW {
    #[cbor(skip)] Va(u8),
    Vb(TW),
}
impl Subj for E_SNew_NTW {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_NTW".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TW as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_NTW::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_NTW::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_NTW::Va(Subj::from_d(&v[0])),
            1 => E_SNew_NTW::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NTW_NStr {
    Va(TW),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_NTW_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NTW_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TW as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NTW_NStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NTW_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NTW_NStr::Va(Subj::from_d(&v[0])),
            1 => E_NTW_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_NTW {
    #[cbor(rename = 7)] Va(String),
    Vb(TW),
}
impl Subj for E_NStr_NTW {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_NTW".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TW as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_NTW::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_NTW::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_NTW::Va(Subj::from_d(&v[0])),
            1 => E_NStr_NTW::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMap_UText {
    Va(BTreeMap<u8, String>),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_NMap_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMap_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<u8, String> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMap_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NMap_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMap_UText::Va(Subj::from_d(&v[0])),
            1 => E_NMap_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_NMap {
    #[cbor(rename = "n0")] Va,
    Vb(BTreeMap<u8, String>),
}
impl Subj for E_UText_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_NMap".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<u8, String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_NMap::Va => D::Var(0, vec![]),
            E_UText_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_NMap::Va,
            1 => E_UText_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMap_TSkip {
    Va(BTreeMap<u8, String>),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_NMap_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMap_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<u8, String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMap_TSkip::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NMap_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMap_TSkip::Va(Subj::from_d(&v[0])),
            1 => E_NMap_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_NMap {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb(BTreeMap<u8, String>),
}
impl Subj for E_TSkip_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_NMap".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<u8, String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_NMap::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_NMap::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVecNS_NU8 {
    Va(Vec<NS>),
    Vb(u8),
}
impl Subj for E_NVecNS_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVecNS_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<NS> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVecNS_NU8::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVecNS_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVecNS_NU8::Va(Subj::from_d(&v[0])),
            1 => E_NVecNS_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_NVecNS {
    Va(u8),
    Vb(Vec<NS>),
}
impl Subj for E_NU8_NVecNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_NVecNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<NS> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_NVecNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_NVecNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_NVecNS::Va(Subj::from_d(&v[0])),
            1 => E_NU8_NVecNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVecNS_NArr {
    Va(Vec<NS>),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NVecNS_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVecNS_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<NS> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVecNS_NArr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVecNS_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVecNS_NArr::Va(Subj::from_d(&v[0])),
            1 => E_NVecNS_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_NVecNS {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb(Vec<NS>),
}
impl Subj for E_NArr_NVecNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_NVecNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<NS> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_NVecNS::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_NVecNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_NVecNS::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_NVecNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NTup_Tup {
    Va((u8, bool)),
    Vb(u8, String),
}
impl Subj for E_NTup_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NTup_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(u8, bool) as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NTup_Tup::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NTup_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NTup_Tup::Va(Subj::from_d(&v[0])),
            1 => E_NTup_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_NTup {
    Va(u8, String),
    Vb((u8, bool)),
}
impl Subj for E_Tup_NTup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_NTup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(u8, bool) as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_NTup::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_NTup::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_NTup::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_NTup::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NTup_EmB {
    Va((u8, bool)),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_NTup_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NTup_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(u8, bool) as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NTup_EmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NTup_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NTup_EmB::Va(Subj::from_d(&v[0])),
            1 => E_NTup_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_NTup {
    #[cbor(embed)] Va(EB),
    Vb((u8, bool)),
}
impl Subj for E_EmB_NTup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_NTup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(u8, bool) as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_NTup::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_NTup::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_NTup::Va(Subj::from_d(&v[0])),
            1 => E_EmB_NTup::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NBig_N0 {
    Va(u128),
    Vb {  },
}
impl Subj for E_NBig_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NBig_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u128 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NBig_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NBig_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NBig_N0::Va(Subj::from_d(&v[0])),
            1 => E_NBig_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_NBig {
    Va {  },
    Vb(u128),
}
impl Subj for E_N0_NBig {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_NBig".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u128 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_NBig::Va {  } => D::Var(0, vec![]),
            E_N0_NBig::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_NBig::Va {  },
            1 => E_N0_NBig::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NBig_UDisc {
    Va(u128),
    Vb = 2,
}
impl Subj for E_NBig_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NBig_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u128 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NBig_UDisc::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NBig_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NBig_UDisc::Va(Subj::from_d(&v[0])),
            1 => E_NBig_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_NBig {
    Va = 1,
    Vb(u128),
}
impl Subj for E_UDisc_NBig {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_NBig".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u128 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_NBig::Va => D::Var(0, vec![]),
            E_UDisc_NBig::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_NBig::Va,
            1 => E_UDisc_NBig::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UUnkS_EmA {
    #[cbor(as_struct, allow_unknown)] Va,
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_UUnkS_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UUnkS_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UUnkS_EmA::Va => D::Var(0, vec![]),
            E_UUnkS_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UUnkS_EmA::Va,
            1 => E_UUnkS_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_UUnkS {
    #[cbor(embed)] Va(EA),
    #[cbor(as_struct, allow_unknown)] Vb,
}
impl Subj for E_EmA_UUnkS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_UUnkS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_UUnkS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_UUnkS::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_UUnkS::Va(Subj::from_d(&v[0])),
            1 => E_EmA_UUnkS::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UUnkS_NOpt {
    #[cbor(as_struct, allow_unknown)] Va,
    Vb(Option<u8>),
}
impl Subj for E_UUnkS_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UUnkS_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UUnkS_NOpt::Va => D::Var(0, vec![]),
            E_UUnkS_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UUnkS_NOpt::Va,
            1 => E_UUnkS_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_UUnkS {
    Va(Option<u8>),
    #[cbor(as_struct, allow_unknown)] Vb,
}
impl Subj for E_NOpt_UUnkS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_UUnkS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_UUnkS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_UUnkS::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_UUnkS::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_UUnkS::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0Unk_UNum {
    #[cbor(allow_unknown)] Va {  },
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_N0Unk_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0Unk_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0Unk_UNum::Va {  } => D::Var(0, vec![]),
            E_N0Unk_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0Unk_UNum::Va {  },
            1 => E_N0Unk_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_N0Unk {
    #[cbor(rename = 7)] Va,
    #[cbor(allow_unknown)] Vb {  },
}
impl Subj for E_UNum_N0Unk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_N0Unk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_N0Unk::Va => D::Var(0, vec![]),
            E_UNum_N0Unk::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_N0Unk::Va,
            1 => E_UNum_N0Unk::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0Unk_T0 {
    #[cbor(allow_unknown)] Va {  },
    Vb(),
}
impl Subj for E_N0Unk_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0Unk_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0Unk_T0::Va {  } => D::Var(0, vec![]),
            E_N0Unk_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0Unk_T0::Va {  },
            1 => E_N0Unk_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_N0Unk {
    Va(),
    #[cbor(allow_unknown)] Vb {  },
}
impl Subj for E_T0_N0Unk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_N0Unk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_N0Unk::Va() => D::Var(0, vec![]),
            E_T0_N0Unk::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_N0Unk::Va(),
            1 => E_T0_N0Unk::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr0_NStr {
    #[cbor(as_array)] Va {  },
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_NArr0_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr0_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr0_NStr::Va {  } => D::Var(0, vec![]),
            E_NArr0_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr0_NStr::Va {  },
            1 => E_NArr0_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_NArr0 {
    #[cbor(rename = 7)] Va(String),
    #[cbor(as_array)] Vb {  },
}
impl Subj for E_NStr_NArr0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_NArr0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_NArr0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_NArr0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_NArr0::Va(Subj::from_d(&v[0])),
            1 => E_NStr_NArr0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr0_NUnk {
    #[cbor(as_array)] Va {  },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_NArr0_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr0_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr0_NUnk::Va {  } => D::Var(0, vec![]),
            E_NArr0_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr0_NUnk::Va {  },
            1 => E_NArr0_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_NArr0 {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(as_array)] Vb {  },
}
impl Subj for E_NUnk_NArr0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_NArr0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_NArr0::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_NArr0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_NArr0::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_NArr0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TUnk_TSkip {
    #[cbor(allow_unknown)] Va(u8, u8),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_TUnk_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TUnk_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TUnk_TSkip::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_TUnk_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TUnk_TSkip::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_TUnk_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_TUnk {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    #[cbor(allow_unknown)] Vb(u8, u8),
}
impl Subj for E_TSkip_TUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_TUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_TUnk::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_TUnk::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_TUnk::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_TUnk::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TUnk_NEN {
    #[cbor(allow_unknown)] Va(u8, u8),
    Vb(EN),
}
impl Subj for E_TUnk_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TUnk_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TUnk_NEN::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_TUnk_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TUnk_NEN::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_TUnk_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_TUnk {
    Va(EN),
    #[cbor(allow_unknown)] Vb(u8, u8),
}
impl Subj for E_NEN_TUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_TUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_TUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_TUnk::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_TUnk::Va(Subj::from_d(&v[0])),
            1 => E_NEN_TUnk::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_RStruct_NArr {
    #[cbor(as_struct, rename = 7)] Va,
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_RStruct_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RStruct_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RStruct_NArr::Va => D::Var(0, vec![]),
            E_RStruct_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RStruct_NArr::Va,
            1 => E_RStruct_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_RStruct {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(as_struct, rename = 300)] Vb,
}
impl Subj for E_NArr_RStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_RStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_RStruct::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_RStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_RStruct::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_RStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_RStruct_UExpr {
    #[cbor(as_struct, rename = 7)] Va,
    Vb = 41 * 100 + 23,
}
impl Subj for E_RStruct_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RStruct_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RStruct_UExpr::Va => D::Var(0, vec![]),
            E_RStruct_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RStruct_UExpr::Va,
            1 => E_RStruct_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_RStruct {
    Va = -(1 << 8),
    #[cbor(as_struct, rename = 300)] Vb,
}
impl Subj for E_UExpr_RStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_RStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_RStruct::Va => D::Var(0, vec![]),
            E_UExpr_RStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_RStruct::Va,
            1 => E_UExpr_RStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_URText_EmB {
    #[cbor(rename = "renamed_variant_of_24_bytes_or_more")] Va { bb: u8, a: Option<String> },
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_URText_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_URText_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("renamed_variant_of_24_bytes_or_more"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_URText_EmB::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_URText_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_URText_EmB::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_URText_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_URText {
    #[cbor(embed)] Va(EB),
    #[cbor(rename = "renamed_variant_of_24_bytes_or_more")] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_EmB_URText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_URText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("renamed_variant_of_24_bytes_or_more"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_URText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_URText::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_URText::Va(Subj::from_d(&v[0])),
            1 => E_EmB_URText::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_URText_NNS {
    #[cbor(rename = "renamed_variant_of_24_bytes_or_more")] Va { bb: u8, a: Option<String> },
    Vb(NS),
}
impl Subj for E_URText_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_URText_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("renamed_variant_of_24_bytes_or_more"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_URText_NNS::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_URText_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_URText_NNS::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_URText_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_URText {
    Va(NS),
    #[cbor(rename = "renamed_variant_of_24_bytes_or_more")] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NNS_URText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_URText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("renamed_variant_of_24_bytes_or_more"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_URText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_URText::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_URText::Va(Subj::from_d(&v[0])),
            1 => E_NNS_URText::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_NRen_UDisc {
    Va { #[cbor(rename = "a")] b: u8, #[cbor(rename = "b")] a: String, #[cbor(rename = 1)] c: bool },
    Vb = 2,
}
impl Subj for E_NRen_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NRen_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty()), fld(t("b"), <String as Subj>::ty()), fld(M::U(1), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NRen_UDisc::Va { b: x0, a: x1, c: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NRen_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NRen_UDisc::Va { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) },
            1 => E_NRen_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_NRen {
    Va = 1,
    Vb { #[cbor(rename = "a")] b: u8, #[cbor(rename = "b")] a: String, #[cbor(rename = 1)] c: bool },
}
impl Subj for E_UDisc_NRen {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_NRen".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty()), fld(t("b"), <String as Subj>::ty()), fld(M::U(1), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_NRen::Va => D::Var(0, vec![]),
            E_UDisc_NRen::Vb { b: x0, a: x1, c: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_NRen::Va,
            1 => E_UDisc_NRen::Vb { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NRen_Named {
    Va { #[cbor(rename = "a")] b: u8, #[cbor(rename = "b")] a: String, #[cbor(rename = 1)] c: bool },
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_NRen_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NRen_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty()), fld(t("b"), <String as Subj>::ty()), fld(M::U(1), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NRen_Named::Va { b: x0, a: x1, c: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NRen_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NRen_Named::Va { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) },
            1 => E_NRen_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_NRen {
    Va { bb: u8, a: Option<String> },
    Vb { #[cbor(rename = "a")] b: u8, #[cbor(rename = "b")] a: String, #[cbor(rename = 1)] c: bool },
}
impl Subj for E_Named_NRen {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_NRen".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty()), fld(t("b"), <String as Subj>::ty()), fld(M::U(1), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_NRen::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_NRen::Vb { b: x0, a: x1, c: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_NRen::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_NRen::Vb { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Fu8_NOpt {
    Va { g: u8, e: u8 },
    Vb(Option<u8>),
}
impl Subj for E_Fu8_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Fu8_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Fu8_NOpt::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Fu8_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Fu8_NOpt::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_Fu8_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_Fu8 {
    Va(Option<u8>),
    Vb { g: u8, e: u8 },
}
impl Subj for E_NOpt_Fu8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_Fu8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_Fu8::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_Fu8::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_Fu8::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_Fu8::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Fu8_SUnit {
    Va { g: u8, e: u8 },
    #[cbor(skip)] Vb,
}
impl Subj for E_Fu8_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Fu8_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Fu8_SUnit::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Fu8_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Fu8_SUnit::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_Fu8_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_Fu8 {
    #[cbor(skip)] Va,
    Vb { g: u8, e: u8 },
}
impl Subj for E_SUnit_Fu8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_Fu8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_Fu8::Va => D::Var(0, vec![]),
            E_SUnit_Fu8::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_Fu8::Va,
            1 => E_SUnit_Fu8::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Qu8_T0 {
    Va(u8, u8),
    Vb(),
}
impl Subj for E_Qu8_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Qu8_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Qu8_T0::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Qu8_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Qu8_T0::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Qu8_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_Qu8 {
    Va(),
    Vb(u8, u8),
}
impl Subj for E_T0_Qu8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_Qu8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_Qu8::Va() => D::Var(0, vec![]),
            E_T0_Qu8::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_Qu8::Va(),
            1 => E_T0_Qu8::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Qu8_Unit {
    Va(u8, u8),
    Vb,
}
impl Subj for E_Qu8_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Qu8_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Qu8_Unit::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Qu8_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Qu8_Unit::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Qu8_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_Qu8 {
    Va,
    Vb(u8, u8),
}
impl Subj for E_Unit_Qu8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_Qu8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_Qu8::Va => D::Var(0, vec![]),
            E_Unit_Qu8::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_Qu8::Va,
            1 => E_Unit_Qu8::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FStr_NUnk {
    Va { g: String, e: u8 },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_FStr_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FStr_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <String as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FStr_NUnk::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FStr_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FStr_NUnk::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FStr_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_FStr {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb { g: String, e: u8 },
}
impl Subj for E_NUnk_FStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_FStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <String as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_FStr::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_FStr::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_FStr::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_FStr::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FStr_UStruct {
    Va { g: String, e: u8 },
    #[cbor(as_struct)] Vb,
}
impl Subj for E_FStr_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FStr_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <String as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FStr_UStruct::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FStr_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FStr_UStruct::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FStr_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_FStr {
    #[cbor(as_struct)] Va,
    Vb { g: String, e: u8 },
}
impl Subj for E_UStruct_FStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_FStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <String as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_FStr::Va => D::Var(0, vec![]),
            E_UStruct_FStr::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_FStr::Va,
            1 => E_UStruct_FStr::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QStr_NEN {
    Va(String, u8),
    Vb(EN),
}
impl Subj for E_QStr_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QStr_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QStr_NEN::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QStr_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QStr_NEN::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QStr_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_QStr {
    Va(EN),
    Vb(String, u8),
}
impl Subj for E_NEN_QStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_QStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_QStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_QStr::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_QStr::Va(Subj::from_d(&v[0])),
            1 => E_NEN_QStr::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QStr_NVec {
    Va(String, u8),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_QStr_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QStr_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QStr_NVec::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QStr_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QStr_NVec::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QStr_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_QStr {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb(String, u8),
}
impl Subj for E_NVec_QStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_QStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_QStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_QStr::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_QStr::Va(Subj::from_d(&v[0])),
            1 => E_NVec_QStr::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_FOpt_UExpr {
    Va { g: Option<u16>, e: u8 },
    Vb = 41 * 100 + 23,
}
impl Subj for E_FOpt_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FOpt_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Option<u16> as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FOpt_UExpr::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FOpt_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FOpt_UExpr::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FOpt_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_FOpt {
    Va = -(1 << 8),
    Vb { g: Option<u16>, e: u8 },
}
impl Subj for E_UExpr_FOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_FOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Option<u16> as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_FOpt::Va => D::Var(0, vec![]),
            E_UExpr_FOpt::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_FOpt::Va,
            1 => E_UExpr_FOpt::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FOpt_NMix {
    Va { g: Option<u16>, e: u8 },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_FOpt_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FOpt_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Option<u16> as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FOpt_NMix::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FOpt_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FOpt_NMix::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FOpt_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_FOpt {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb { g: Option<u16>, e: u8 },
}
impl Subj for E_NMix_FOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_FOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Option<u16> as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_FOpt::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_FOpt::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_FOpt::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_FOpt::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QOpt_NNS {
    Va(Option<u16>, u8),
    Vb(NS),
}
impl Subj for E_QOpt_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QOpt_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u16> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QOpt_NNS::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QOpt_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QOpt_NNS::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QOpt_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_QOpt {
    Va(NS),
    Vb(Option<u16>, u8),
}
impl Subj for E_NNS_QOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_QOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u16> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_QOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_QOpt::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_QOpt::Va(Subj::from_d(&v[0])),
            1 => E_NNS_QOpt::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QOpt_SNew {
    Va(Option<u16>, u8),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_QOpt_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QOpt_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u16> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QOpt_SNew::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QOpt_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QOpt_SNew::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QOpt_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_QOpt {
    #[cbor(skip)] Va(u8),
    Vb(Option<u16>, u8),
}
impl Subj for E_SNew_QOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_QOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u16> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_QOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_QOpt::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_QOpt::Va(Subj::from_d(&v[0])),
            1 => E_SNew_QOpt::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FOOpt_Named {
    Va { #[cbor(optional)] g: Option<u8>, e: u8 },
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_FOOpt_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FOOpt_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Option<u8> as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FOOpt_Named::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FOOpt_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FOOpt_Named::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FOOpt_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_FOOpt {
    Va { bb: u8, a: Option<String> },
    Vb { #[cbor(optional)] g: Option<u8>, e: u8 },
}
impl Subj for E_Named_FOOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_FOOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Option<u8> as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_FOOpt::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_FOOpt::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_FOOpt::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_FOOpt::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FOOpt_UText {
    Va { #[cbor(optional)] g: Option<u8>, e: u8 },
    #[cbor(rename = "")] Vb,
}
impl Subj for E_FOOpt_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FOOpt_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Option<u8> as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FOOpt_UText::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FOOpt_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FOOpt_UText::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FOOpt_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_FOOpt {
    #[cbor(rename = "n0")] Va,
    Vb { #[cbor(optional)] g: Option<u8>, e: u8 },
}
impl Subj for E_UText_FOOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_FOOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Option<u8> as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_FOOpt::Va => D::Var(0, vec![]),
            E_UText_FOOpt::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_FOOpt::Va,
            1 => E_UText_FOOpt::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QOOpt_SUnit {
    Va(#[cbor(optional)] Option<u8>, u8),
    #[cbor(skip)] Vb,
}
impl Subj for E_QOOpt_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QOOpt_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QOOpt_SUnit::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QOOpt_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QOOpt_SUnit::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QOOpt_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_QOOpt {
    #[cbor(skip)] Va,
    Vb(#[cbor(optional)] Option<u8>, u8),
}
impl Subj for E_SUnit_QOOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_QOOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_QOOpt::Va => D::Var(0, vec![]),
            E_SUnit_QOOpt::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_QOOpt::Va,
            1 => E_SUnit_QOOpt::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QOOpt_NU8 {
    Va(#[cbor(optional)] Option<u8>, u8),
    Vb(u8),
}
impl Subj for E_QOOpt_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QOOpt_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QOOpt_NU8::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QOOpt_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QOOpt_NU8::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QOOpt_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_QOOpt {
    Va(u8),
    Vb(#[cbor(optional)] Option<u8>, u8),
}
impl Subj for E_NU8_QOOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_QOOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_QOOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_QOOpt::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_QOOpt::Va(Subj::from_d(&v[0])),
            1 => E_NU8_QOOpt::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FONum_Unit {
    Va { #[cbor(optional)] g: u64, e: u8 },
    Vb,
}
impl Subj for E_FONum_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FONum_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u64 as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FONum_Unit::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FONum_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FONum_Unit::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FONum_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_FONum {
    Va,
    Vb { #[cbor(optional)] g: u64, e: u8 },
}
impl Subj for E_Unit_FONum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_FONum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u64 as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_FONum::Va => D::Var(0, vec![]),
            E_Unit_FONum::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_FONum::Va,
            1 => E_Unit_FONum::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FONum_Tup {
    Va { #[cbor(optional)] g: u64, e: u8 },
    Vb(u8, String),
}
impl Subj for E_FONum_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FONum_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u64 as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FONum_Tup::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FONum_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FONum_Tup::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FONum_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_FONum {
    Va(u8, String),
    Vb { #[cbor(optional)] g: u64, e: u8 },
}
impl Subj for E_Tup_FONum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_FONum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u64 as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_FONum::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_FONum::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_FONum::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_FONum::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QONum_UStruct {
    Va(#[cbor(optional)] u64, u8),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_QONum_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QONum_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u64 as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QONum_UStruct::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QONum_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QONum_UStruct::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QONum_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_QONum {
    #[cbor(as_struct)] Va,
    Vb(#[cbor(optional)] u64, u8),
}
impl Subj for E_UStruct_QONum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_QONum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u64 as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_QONum::Va => D::Var(0, vec![]),
            E_UStruct_QONum::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_QONum::Va,
            1 => E_UStruct_QONum::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QONum_N0 {
    Va(#[cbor(optional)] u64, u8),
    Vb {  },
}
impl Subj for E_QONum_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QONum_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u64 as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QONum_N0::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QONum_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QONum_N0::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QONum_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_QONum {
    Va {  },
    Vb(#[cbor(optional)] u64, u8),
}
impl Subj for E_N0_QONum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_QONum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u64 as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_QONum::Va {  } => D::Var(0, vec![]),
            E_N0_QONum::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_QONum::Va {  },
            1 => E_N0_QONum::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FOVec_NVec {
    Va { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] g: Vec<u8>, e: u8 },
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_FOVec_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FOVec_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FOVec_NVec::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FOVec_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FOVec_NVec::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FOVec_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_FOVec {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] g: Vec<u8>, e: u8 },
}
impl Subj for E_NVec_FOVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_FOVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_FOVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_FOVec::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_FOVec::Va(Subj::from_d(&v[0])),
            1 => E_NVec_FOVec::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FOVec_EmA {
    Va { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] g: Vec<u8>, e: u8 },
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_FOVec_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FOVec_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FOVec_EmA::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FOVec_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FOVec_EmA::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FOVec_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_FOVec {
    #[cbor(embed)] Va(EA),
    Vb { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] g: Vec<u8>, e: u8 },
}
impl Subj for E_EmA_FOVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_FOVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_FOVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_FOVec::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_FOVec::Va(Subj::from_d(&v[0])),
            1 => E_EmA_FOVec::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FSkip_NMix {
    Va { #[cbor(skip)] g: u32, e: u8 },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_FSkip_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FSkip_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u32 as Subj>::ty()).skipped(), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FSkip_NMix::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FSkip_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FSkip_NMix::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FSkip_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_FSkip {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb { #[cbor(skip)] g: u32, e: u8 },
}
impl Subj for E_NMix_FSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_FSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u32 as Subj>::ty()).skipped(), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_FSkip::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_FSkip::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_FSkip::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_FSkip::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FSkip_UNum {
    Va { #[cbor(skip)] g: u32, e: u8 },
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_FSkip_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FSkip_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u32 as Subj>::ty()).skipped(), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FSkip_UNum::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FSkip_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FSkip_UNum::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FSkip_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_FSkip {
    #[cbor(rename = 7)] Va,
    Vb { #[cbor(skip)] g: u32, e: u8 },
}
impl Subj for E_UNum_FSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_FSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u32 as Subj>::ty()).skipped(), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_FSkip::Va => D::Var(0, vec![]),
            E_UNum_FSkip::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_FSkip::Va,
            1 => E_UNum_FSkip::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QSkip_SNew {
    Va(#[cbor(skip)] u32, u8),
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_QSkip_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QSkip_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QSkip_SNew::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QSkip_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QSkip_SNew::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QSkip_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_QSkip {
    #[cbor(skip)] Va(u8),
    Vb(#[cbor(skip)] u32, u8),
}
impl Subj for E_SNew_QSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_QSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_QSkip::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_QSkip::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_QSkip::Va(Subj::from_d(&v[0])),
            1 => E_SNew_QSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QSkip_NStr {
    Va(#[cbor(skip)] u32, u8),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_QSkip_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QSkip_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QSkip_NStr::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QSkip_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QSkip_NStr::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QSkip_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_QSkip {
    #[cbor(rename = 7)] Va(String),
    Vb(#[cbor(skip)] u32, u8),
}
impl Subj for E_NStr_QSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_QSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_QSkip::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_QSkip::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_QSkip::Va(Subj::from_d(&v[0])),
            1 => E_NStr_QSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FRText_UText {
    Va { #[cbor(rename = "q")] g: i8, e: u8 },
    #[cbor(rename = "")] Vb,
}
impl Subj for E_FRText_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FRText_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FRText_UText::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FRText_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FRText_UText::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FRText_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_FRText {
    #[cbor(rename = "n0")] Va,
    Vb { #[cbor(rename = "q")] g: i8, e: u8 },
}
impl Subj for E_UText_FRText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_FRText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_FRText::Va => D::Var(0, vec![]),
            E_UText_FRText::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_FRText::Va,
            1 => E_UText_FRText::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FRText_TSkip {
    Va { #[cbor(rename = "q")] g: i8, e: u8 },
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_FRText_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FRText_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FRText_TSkip::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FRText_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FRText_TSkip::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FRText_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_FRText {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb { #[cbor(rename = "q")] g: i8, e: u8 },
}
impl Subj for E_TSkip_FRText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_FRText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_FRText::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_FRText::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_FRText::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_FRText::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QRText_NU8 {
    Va(#[cbor(rename = "q")] i8, u8),
    Vb(u8),
}
impl Subj for E_QRText_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QRText_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QRText_NU8::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QRText_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QRText_NU8::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QRText_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_QRText {
    Va(u8),
    Vb(#[cbor(rename = "q")] i8, u8),
}
impl Subj for E_NU8_QRText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_QRText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_QRText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_QRText::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_QRText::Va(Subj::from_d(&v[0])),
            1 => E_NU8_QRText::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QRText_NArr {
    Va(#[cbor(rename = "q")] i8, u8),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_QRText_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QRText_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QRText_NArr::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QRText_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QRText_NArr::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QRText_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_QRText {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb(#[cbor(rename = "q")] i8, u8),
}
impl Subj for E_NArr_QRText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_QRText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_QRText::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_QRText::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_QRText::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_QRText::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FRNum_Tup {
    Va { #[cbor(rename = 7)] g: i16, e: u8 },
    Vb(u8, String),
}
impl Subj for E_FRNum_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FRNum_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FRNum_Tup::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FRNum_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FRNum_Tup::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FRNum_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_FRNum {
    Va(u8, String),
    Vb { #[cbor(rename = 7)] g: i16, e: u8 },
}
impl Subj for E_Tup_FRNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_FRNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_FRNum::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_FRNum::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_FRNum::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_FRNum::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FRNum_EmB {
    Va { #[cbor(rename = 7)] g: i16, e: u8 },
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_FRNum_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FRNum_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FRNum_EmB::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FRNum_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FRNum_EmB::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FRNum_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_FRNum {
    #[cbor(embed)] Va(EB),
    Vb { #[cbor(rename = 7)] g: i16, e: u8 },
}
impl Subj for E_EmB_FRNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_FRNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_FRNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_FRNum::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_FRNum::Va(Subj::from_d(&v[0])),
            1 => E_EmB_FRNum::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QRNum_N0 {
    Va(#[cbor(rename = 7)] i16, u8),
    Vb {  },
}
impl Subj for E_QRNum_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QRNum_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(7), <i16 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QRNum_N0::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QRNum_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QRNum_N0::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QRNum_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_QRNum {
    Va {  },
    Vb(#[cbor(rename = 7)] i16, u8),
}
impl Subj for E_N0_QRNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_QRNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(7), <i16 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_QRNum::Va {  } => D::Var(0, vec![]),
            E_N0_QRNum::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_QRNum::Va {  },
            1 => E_N0_QRNum::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_QRNum_UDisc {
    Va(#[cbor(rename = 7)] i16, u8),
    Vb = 2,
}
impl Subj for E_QRNum_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QRNum_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(7), <i16 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QRNum_UDisc::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QRNum_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QRNum_UDisc::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QRNum_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_QRNum {
    Va = 1,
    Vb(#[cbor(rename = 7)] i16, u8),
}
impl Subj for E_UDisc_QRNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_QRNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(7), <i16 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_QRNum::Va => D::Var(0, vec![]),
            E_UDisc_QRNum::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_QRNum::Va,
            1 => E_UDisc_QRNum::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FRLong_EmA {
    Va { #[cbor(rename = "a_field_name_of_at_leas")] g: bool, e: u8 },
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_FRLong_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FRLong_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FRLong_EmA::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FRLong_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FRLong_EmA::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FRLong_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_FRLong {
    #[cbor(embed)] Va(EA),
    Vb { #[cbor(rename = "a_field_name_of_at_leas")] g: bool, e: u8 },
}
impl Subj for E_EmA_FRLong {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_FRLong".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_FRLong::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_FRLong::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_FRLong::Va(Subj::from_d(&v[0])),
            1 => E_EmA_FRLong::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FRLong_NOpt {
    Va { #[cbor(rename = "a_field_name_of_at_leas")] g: bool, e: u8 },
    Vb(Option<u8>),
}
impl Subj for E_FRLong_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FRLong_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FRLong_NOpt::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FRLong_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FRLong_NOpt::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FRLong_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_FRLong {
    Va(Option<u8>),
    Vb { #[cbor(rename = "a_field_name_of_at_leas")] g: bool, e: u8 },
}
impl Subj for E_NOpt_FRLong {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_FRLong".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_FRLong::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_FRLong::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_FRLong::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_FRLong::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QRLong_UNum {
    Va(#[cbor(rename = "a_field_name_of_at_leas")] bool, u8),
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_QRLong_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QRLong_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QRLong_UNum::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QRLong_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QRLong_UNum::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QRLong_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_QRLong {
    #[cbor(rename = 7)] Va,
    Vb(#[cbor(rename = "a_field_name_of_at_leas")] bool, u8),
}
impl Subj for E_UNum_QRLong {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_QRLong".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_QRLong::Va => D::Var(0, vec![]),
            E_UNum_QRLong::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_QRLong::Va,
            1 => E_UNum_QRLong::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QRLong_T0 {
    Va(#[cbor(rename = "a_field_name_of_at_leas")] bool, u8),
    Vb(),
}
impl Subj for E_QRLong_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QRLong_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QRLong_T0::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QRLong_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QRLong_T0::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QRLong_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_QRLong {
    Va(),
    Vb(#[cbor(rename = "a_field_name_of_at_leas")] bool, u8),
}
impl Subj for E_T0_QRLong {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_QRLong".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_QRLong::Va() => D::Var(0, vec![]),
            E_T0_QRLong::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_QRLong::Va(),
            1 => E_T0_QRLong::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FWith_NStr {
    Va { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] g: u16, e: u8 },
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for E_FWith_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FWith_NStr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u16 as Subj>::ty()).coded(num()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FWith_NStr::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FWith_NStr::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FWith_NStr::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FWith_NStr::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NStr_FWith {
    #[cbor(rename = 7)] Va(String),
    Vb { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] g: u16, e: u8 },
}
impl Subj for E_NStr_FWith {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NStr_FWith".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u16 as Subj>::ty()).coded(num()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NStr_FWith::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NStr_FWith::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NStr_FWith::Va(Subj::from_d(&v[0])),
            1 => E_NStr_FWith::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FWith_NUnk {
    Va { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] g: u16, e: u8 },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_FWith_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FWith_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u16 as Subj>::ty()).coded(num()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FWith_NUnk::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FWith_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FWith_NUnk::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FWith_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_FWith {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] g: u16, e: u8 },
}
impl Subj for E_NUnk_FWith {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_FWith".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u16 as Subj>::ty()).coded(num()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_FWith::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_FWith::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_FWith::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_FWith::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QWith_TSkip {
    Va(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16, u8),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for E_QWith_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QWith_TSkip".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QWith_TSkip::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QWith_TSkip::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QWith_TSkip::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QWith_TSkip::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_TSkip_QWith {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
    Vb(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16, u8),
}
impl Subj for E_TSkip_QWith {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TSkip_QWith".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TSkip_QWith::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_TSkip_QWith::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TSkip_QWith::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            1 => E_TSkip_QWith::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QWith_NEN {
    Va(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16, u8),
    Vb(EN),
}
impl Subj for E_QWith_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QWith_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QWith_NEN::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QWith_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QWith_NEN::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QWith_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_QWith {
    Va(EN),
    Vb(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] u16, u8),
}
impl Subj for E_NEN_QWith {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_QWith".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_QWith::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_QWith::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_QWith::Va(Subj::from_d(&v[0])),
            1 => E_NEN_QWith::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FOWith_NArr {
    Va { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] g: u16, e: u8 },
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for E_FOWith_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FOWith_NArr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FOWith_NArr::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FOWith_NArr::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FOWith_NArr::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FOWith_NArr::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NArr_FOWith {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    Vb { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] g: u16, e: u8 },
}
impl Subj for E_NArr_FOWith {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NArr_FOWith".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NArr_FOWith::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NArr_FOWith::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NArr_FOWith::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_NArr_FOWith::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_FOWith_UExpr {
    Va { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] g: u16, e: u8 },
    Vb = 41 * 100 + 23,
}
impl Subj for E_FOWith_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FOWith_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FOWith_UExpr::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FOWith_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FOWith_UExpr::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FOWith_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_FOWith {
    Va = -(1 << 8),
    Vb { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] g: u16, e: u8 },
}
impl Subj for E_UExpr_FOWith {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_FOWith".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_FOWith::Va => D::Var(0, vec![]),
            E_UExpr_FOWith::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_FOWith::Va,
            1 => E_UExpr_FOWith::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QOWith_EmB {
    Va(#[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] u16, u8),
    #[cbor(embed)] Vb(EB),
}
impl Subj for E_QOWith_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QOWith_EmB".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).opt().coded(pos()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QOWith_EmB::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QOWith_EmB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QOWith_EmB::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QOWith_EmB::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmB_QOWith {
    #[cbor(embed)] Va(EB),
    Vb(#[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] u16, u8),
}
impl Subj for E_EmB_QOWith {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmB_QOWith".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).opt().coded(pos()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmB_QOWith::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmB_QOWith::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmB_QOWith::Va(Subj::from_d(&v[0])),
            1 => E_EmB_QOWith::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QOWith_NNS {
    Va(#[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] u16, u8),
    Vb(NS),
}
impl Subj for E_QOWith_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QOWith_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).opt().coded(pos()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QOWith_NNS::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QOWith_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QOWith_NNS::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QOWith_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_QOWith {
    Va(NS),
    Vb(#[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] u16, u8),
}
impl Subj for E_NNS_QOWith {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_QOWith".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()).opt().coded(pos()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_QOWith::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_QOWith::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_QOWith::Va(Subj::from_d(&v[0])),
            1 => E_NNS_QOWith::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_FSer_UDisc {
    Va { #[cbor(serialize_with = "ser_clamp")] g: u8, e: u8 },
    Vb = 2,
}
impl Subj for E_FSer_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FSer_UDisc".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()).coded(clamp()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FSer_UDisc::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FSer_UDisc::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FSer_UDisc::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FSer_UDisc::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_UDisc_FSer {
    Va = 1,
    Vb { #[cbor(serialize_with = "ser_clamp")] g: u8, e: u8 },
}
impl Subj for E_UDisc_FSer {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UDisc_FSer".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()).coded(clamp()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UDisc_FSer::Va => D::Var(0, vec![]),
            E_UDisc_FSer::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UDisc_FSer::Va,
            1 => E_UDisc_FSer::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FSer_Named {
    Va { #[cbor(serialize_with = "ser_clamp")] g: u8, e: u8 },
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_FSer_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FSer_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()).coded(clamp()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FSer_Named::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FSer_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FSer_Named::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FSer_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_FSer {
    Va { bb: u8, a: Option<String> },
    Vb { #[cbor(serialize_with = "ser_clamp")] g: u8, e: u8 },
}
impl Subj for E_Named_FSer {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_FSer".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()).coded(clamp()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_FSer::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_FSer::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_FSer::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_FSer::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QSer_NOpt {
    Va(#[cbor(serialize_with = "ser_clamp")] u8, u8),
    Vb(Option<u8>),
}
impl Subj for E_QSer_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QSer_NOpt".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QSer_NOpt::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QSer_NOpt::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QSer_NOpt::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QSer_NOpt::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NOpt_QSer {
    Va(Option<u8>),
    Vb(#[cbor(serialize_with = "ser_clamp")] u8, u8),
}
impl Subj for E_NOpt_QSer {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NOpt_QSer".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NOpt_QSer::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NOpt_QSer::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NOpt_QSer::Va(Subj::from_d(&v[0])),
            1 => E_NOpt_QSer::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QSer_SUnit {
    Va(#[cbor(serialize_with = "ser_clamp")] u8, u8),
    #[cbor(skip)] Vb,
}
impl Subj for E_QSer_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QSer_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QSer_SUnit::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QSer_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QSer_SUnit::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QSer_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_QSer {
    #[cbor(skip)] Va,
    Vb(#[cbor(serialize_with = "ser_clamp")] u8, u8),
}
impl Subj for E_SUnit_QSer {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_QSer".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_QSer::Va => D::Var(0, vec![]),
            E_SUnit_QSer::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_QSer::Va,
            1 => E_SUnit_QSer::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FDe_T0 {
    Va { #[cbor(deserialize_with = "de_inc")] g: u8, e: u8 },
    Vb(),
}
impl Subj for E_FDe_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FDe_T0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()).coded(inc()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FDe_T0::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FDe_T0::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FDe_T0::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FDe_T0::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_T0_FDe {
    Va(),
    Vb { #[cbor(deserialize_with = "de_inc")] g: u8, e: u8 },
}
impl Subj for E_T0_FDe {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_T0_FDe".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()).coded(inc()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_T0_FDe::Va() => D::Var(0, vec![]),
            E_T0_FDe::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_T0_FDe::Va(),
            1 => E_T0_FDe::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FDe_Unit {
    Va { #[cbor(deserialize_with = "de_inc")] g: u8, e: u8 },
    Vb,
}
impl Subj for E_FDe_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FDe_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()).coded(inc()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FDe_Unit::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FDe_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FDe_Unit::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FDe_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_FDe {
    Va,
    Vb { #[cbor(deserialize_with = "de_inc")] g: u8, e: u8 },
}
impl Subj for E_Unit_FDe {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_FDe".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <u8 as Subj>::ty()).coded(inc()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_FDe::Va => D::Var(0, vec![]),
            E_Unit_FDe::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_FDe::Va,
            1 => E_Unit_FDe::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QDe_NUnk {
    Va(#[cbor(deserialize_with = "de_inc")] u8, u8),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E_QDe_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QDe_NUnk".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(inc()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QDe_NUnk::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QDe_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QDe_NUnk::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QDe_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NUnk_QDe {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb(#[cbor(deserialize_with = "de_inc")] u8, u8),
}
impl Subj for E_NUnk_QDe {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NUnk_QDe".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(inc()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NUnk_QDe::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_NUnk_QDe::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NUnk_QDe::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E_NUnk_QDe::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QDe_UStruct {
    Va(#[cbor(deserialize_with = "de_inc")] u8, u8),
    #[cbor(as_struct)] Vb,
}
impl Subj for E_QDe_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QDe_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(inc()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QDe_UStruct::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QDe_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QDe_UStruct::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QDe_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_QDe {
    #[cbor(as_struct)] Va,
    Vb(#[cbor(deserialize_with = "de_inc")] u8, u8),
}
impl Subj for E_UStruct_QDe {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_QDe".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(inc()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_QDe::Va => D::Var(0, vec![]),
            E_UStruct_QDe::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_QDe::Va,
            1 => E_UStruct_QDe::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FVal_NEN {
    Va { g: Value, e: u8 },
    Vb(EN),
}
impl Subj for E_FVal_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FVal_NEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Value as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FVal_NEN::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FVal_NEN::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FVal_NEN::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FVal_NEN::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NEN_FVal {
    Va(EN),
    Vb { g: Value, e: u8 },
}
impl Subj for E_NEN_FVal {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NEN_FVal".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Value as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NEN_FVal::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NEN_FVal::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NEN_FVal::Va(Subj::from_d(&v[0])),
            1 => E_NEN_FVal::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FVal_NVec {
    Va { g: Value, e: u8 },
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_FVal_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FVal_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Value as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FVal_NVec::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FVal_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FVal_NVec::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FVal_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_FVal {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb { g: Value, e: u8 },
}
impl Subj for E_NVec_FVal {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_FVal".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <Value as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_FVal::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_FVal::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_FVal::Va(Subj::from_d(&v[0])),
            1 => E_NVec_FVal::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E_QVal_UExpr {
    Va(Value, u8),
    Vb = 41 * 100 + 23,
}
impl Subj for E_QVal_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QVal_UExpr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Value as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QVal_UExpr::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QVal_UExpr::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QVal_UExpr::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QVal_UExpr::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E_UExpr_QVal {
    Va = -(1 << 8),
    Vb(Value, u8),
}
impl Subj for E_UExpr_QVal {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UExpr_QVal".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Value as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UExpr_QVal::Va => D::Var(0, vec![]),
            E_UExpr_QVal::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UExpr_QVal::Va,
            1 => E_UExpr_QVal::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QVal_NMix {
    Va(Value, u8),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_QVal_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QVal_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Value as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QVal_NMix::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QVal_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QVal_NMix::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QVal_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_QVal {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb(Value, u8),
}
impl Subj for E_NMix_QVal {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_QVal".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Value as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_QVal::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_QVal::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_QVal::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_QVal::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FNS_NNS {
    Va { g: NS, e: u8 },
    Vb(NS),
}
impl Subj for E_FNS_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FNS_NNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <NS as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FNS_NNS::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FNS_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FNS_NNS::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FNS_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NNS_FNS {
    Va(NS),
    Vb { g: NS, e: u8 },
}
impl Subj for E_NNS_FNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NNS_FNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <NS as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NNS_FNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NNS_FNS::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NNS_FNS::Va(Subj::from_d(&v[0])),
            1 => E_NNS_FNS::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FNS_SNew {
    Va { g: NS, e: u8 },
    #[cbor(skip)] Vb(u8),
}
impl Subj for E_FNS_SNew {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FNS_SNew".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <NS as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FNS_SNew::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FNS_SNew::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FNS_SNew::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FNS_SNew::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SNew_FNS {
    #[cbor(skip)] Va(u8),
    Vb { g: NS, e: u8 },
}
impl Subj for E_SNew_FNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SNew_FNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <NS as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SNew_FNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_SNew_FNS::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SNew_FNS::Va(Subj::from_d(&v[0])),
            1 => E_SNew_FNS::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QNS_Named {
    Va(NS, u8),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for E_QNS_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QNS_Named".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QNS_Named::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QNS_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QNS_Named::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QNS_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Named_QNS {
    Va { bb: u8, a: Option<String> },
    Vb(NS, u8),
}
impl Subj for E_Named_QNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Named_QNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Named_QNS::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Named_QNS::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Named_QNS::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E_Named_QNS::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QNS_UText {
    Va(NS, u8),
    #[cbor(rename = "")] Vb,
}
impl Subj for E_QNS_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QNS_UText".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QNS_UText::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QNS_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QNS_UText::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QNS_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UText_QNS {
    #[cbor(rename = "n0")] Va,
    Vb(NS, u8),
}
impl Subj for E_UText_QNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UText_QNS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UText_QNS::Va => D::Var(0, vec![]),
            E_UText_QNS::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UText_QNS::Va,
            1 => E_UText_QNS::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FONS_SUnit {
    Va { #[cbor(optional)] g: NS, e: u8 },
    #[cbor(skip)] Vb,
}
impl Subj for E_FONS_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FONS_SUnit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <NS as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FONS_SUnit::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FONS_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FONS_SUnit::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FONS_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_SUnit_FONS {
    #[cbor(skip)] Va,
    Vb { #[cbor(optional)] g: NS, e: u8 },
}
impl Subj for E_SUnit_FONS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_SUnit_FONS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <NS as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_SUnit_FONS::Va => D::Var(0, vec![]),
            E_SUnit_FONS::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_SUnit_FONS::Va,
            1 => E_SUnit_FONS::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FONS_NU8 {
    Va { #[cbor(optional)] g: NS, e: u8 },
    Vb(u8),
}
impl Subj for E_FONS_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FONS_NU8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <NS as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FONS_NU8::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FONS_NU8::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FONS_NU8::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FONS_NU8::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NU8_FONS {
    Va(u8),
    Vb { #[cbor(optional)] g: NS, e: u8 },
}
impl Subj for E_NU8_FONS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NU8_FONS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <NS as Subj>::ty()).opt(), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NU8_FONS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NU8_FONS::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NU8_FONS::Va(Subj::from_d(&v[0])),
            1 => E_NU8_FONS::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QONS_Unit {
    Va(#[cbor(optional)] NS, u8),
    Vb,
}
impl Subj for E_QONS_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QONS_Unit".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QONS_Unit::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QONS_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QONS_Unit::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QONS_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Unit_QONS {
    Va,
    Vb(#[cbor(optional)] NS, u8),
}
impl Subj for E_Unit_QONS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Unit_QONS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Unit_QONS::Va => D::Var(0, vec![]),
            E_Unit_QONS::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Unit_QONS::Va,
            1 => E_Unit_QONS::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QONS_Tup {
    Va(#[cbor(optional)] NS, u8),
    Vb(u8, String),
}
impl Subj for E_QONS_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QONS_Tup".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QONS_Tup::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QONS_Tup::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QONS_Tup::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QONS_Tup::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_Tup_QONS {
    Va(u8, String),
    Vb(#[cbor(optional)] NS, u8),
}
impl Subj for E_Tup_QONS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_Tup_QONS".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_Tup_QONS::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_Tup_QONS::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_Tup_QONS::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_Tup_QONS::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FEN_UStruct {
    Va { g: EN, e: u8 },
    #[cbor(as_struct)] Vb,
}
impl Subj for E_FEN_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FEN_UStruct".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <EN as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FEN_UStruct::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FEN_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FEN_UStruct::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FEN_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UStruct_FEN {
    #[cbor(as_struct)] Va,
    Vb { g: EN, e: u8 },
}
impl Subj for E_UStruct_FEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UStruct_FEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <EN as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UStruct_FEN::Va => D::Var(0, vec![]),
            E_UStruct_FEN::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UStruct_FEN::Va,
            1 => E_UStruct_FEN::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FEN_N0 {
    Va { g: EN, e: u8 },
    Vb {  },
}
impl Subj for E_FEN_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FEN_N0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <EN as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FEN_N0::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FEN_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FEN_N0::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FEN_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_N0_FEN {
    Va {  },
    Vb { g: EN, e: u8 },
}
impl Subj for E_N0_FEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_N0_FEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("g"), <EN as Subj>::ty()), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_N0_FEN::Va {  } => D::Var(0, vec![]),
            E_N0_FEN::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_N0_FEN::Va {  },
            1 => E_N0_FEN::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QEN_NVec {
    Va(EN, u8),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for E_QEN_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QEN_NVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QEN_NVec::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QEN_NVec::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QEN_NVec::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QEN_NVec::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NVec_QEN {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
    Vb(EN, u8),
}
impl Subj for E_NVec_QEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NVec_QEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NVec_QEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_NVec_QEN::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NVec_QEN::Va(Subj::from_d(&v[0])),
            1 => E_NVec_QEN::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_QEN_EmA {
    Va(EN, u8),
    #[cbor(embed)] Vb(EA),
}
impl Subj for E_QEN_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_QEN_EmA".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_QEN_EmA::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_QEN_EmA::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_QEN_EmA::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E_QEN_EmA::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_EmA_QEN {
    #[cbor(embed)] Va(EA),
    Vb(EN, u8),
}
impl Subj for E_EmA_QEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_EmA_QEN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_EmA_QEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E_EmA_QEN::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_EmA_QEN::Va(Subj::from_d(&v[0])),
            1 => E_EmA_QEN::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FORNum_NMix {
    Va { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] g: u8, e: u8 },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E_FORNum_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FORNum_NMix".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FORNum_NMix::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FORNum_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FORNum_NMix::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FORNum_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_NMix_FORNum {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] g: u8, e: u8 },
}
impl Subj for E_NMix_FORNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NMix_FORNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NMix_FORNum::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E_NMix_FORNum::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NMix_FORNum::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E_NMix_FORNum::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_FORNum_UNum {
    Va { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] g: u8, e: u8 },
    #[cbor(rename = 300)] Vb,
}
impl Subj for E_FORNum_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_FORNum_UNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("e"), <u8 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_FORNum_UNum::Va { g: x0, e: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E_FORNum_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_FORNum_UNum::Va { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            1 => E_FORNum_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E_UNum_FORNum {
    #[cbor(rename = 7)] Va,
    Vb { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] g: u8, e: u8 },
}
impl Subj for E_UNum_FORNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UNum_FORNum".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("e"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UNum_FORNum::Va => D::Var(0, vec![]),
            E_UNum_FORNum::Vb { g: x0, e: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UNum_FORNum::Va,
            1 => E_UNum_FORNum::Vb { g: Subj::from_d(&v[0]), e: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_0_0 {
    Va,
    Vb(u8),
    #[cbor(embed)] Vc(EA),
}
impl Subj for E3_0_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_0_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_0_0::Va => D::Var(0, vec![]),
            E3_0_0::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_0_0::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_0_0::Va,
            1 => E3_0_0::Vb(Subj::from_d(&v[0])),
            2 => E3_0_0::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_0_1 {
    Va(u8),
    #[cbor(embed)] Vb(EA),
    Vc,
}
impl Subj for E3_0_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_0_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_0_1::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_0_1::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_0_1::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_0_1::Va(Subj::from_d(&v[0])),
            1 => E3_0_1::Vb(Subj::from_d(&v[0])),
            2 => E3_0_1::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_0_2 {
    #[cbor(embed)] Va(EA),
    Vb,
    Vc(u8),
}
impl Subj for E3_0_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_0_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_0_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_0_2::Vb => D::Var(1, vec![]),
            E3_0_2::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_0_2::Va(Subj::from_d(&v[0])),
            1 => E3_0_2::Vb,
            2 => E3_0_2::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_0_3 {
    #[cbor(embed)] Va(EA),
    Vb(u8),
    Vc,
}
impl Subj for E3_0_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_0_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_0_3::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_0_3::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_0_3::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_0_3::Va(Subj::from_d(&v[0])),
            1 => E3_0_3::Vb(Subj::from_d(&v[0])),
            2 => E3_0_3::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_1_0 {
    #[cbor(embed)] Va(EA),
    #[cbor(embed)] Vb(EB),
    Vc,
}
impl Subj for E3_1_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_1_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_1_0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_1_0::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_1_0::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_1_0::Va(Subj::from_d(&v[0])),
            1 => E3_1_0::Vb(Subj::from_d(&v[0])),
            2 => E3_1_0::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_1_1 {
    #[cbor(embed)] Va(EB),
    Vb,
    #[cbor(embed)] Vc(EA),
}
impl Subj for E3_1_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_1_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_1_1::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_1_1::Vb => D::Var(1, vec![]),
            E3_1_1::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_1_1::Va(Subj::from_d(&v[0])),
            1 => E3_1_1::Vb,
            2 => E3_1_1::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_1_2 {
    Va,
    #[cbor(embed)] Vb(EA),
    #[cbor(embed)] Vc(EB),
}
impl Subj for E3_1_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_1_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_1_2::Va => D::Var(0, vec![]),
            E3_1_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_1_2::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_1_2::Va,
            1 => E3_1_2::Vb(Subj::from_d(&v[0])),
            2 => E3_1_2::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_1_3 {
    Va,
    #[cbor(embed)] Vb(EB),
    #[cbor(embed)] Vc(EA),
}
impl Subj for E3_1_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_1_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_1_3::Va => D::Var(0, vec![]),
            E3_1_3::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_1_3::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_1_3::Va,
            1 => E3_1_3::Vb(Subj::from_d(&v[0])),
            2 => E3_1_3::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E3_2_0 {
    Va = 1,
    Vb,
    Vc = 42 * 100 + 23,
}
impl Subj for E3_2_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_2_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: Some(int(4223)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_2_0::Va => D::Var(0, vec![]),
            E3_2_0::Vb => D::Var(1, vec![]),
            E3_2_0::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_2_0::Va,
            1 => E3_2_0::Vb,
            2 => E3_2_0::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum E3_2_1 {
    Va,
    Vb = 41 * 100 + 23,
    Vc = 3,
}
impl Subj for E3_2_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_2_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: Some(int(3)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_2_1::Va => D::Var(0, vec![]),
            E3_2_1::Vb => D::Var(1, vec![]),
            E3_2_1::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_2_1::Va,
            1 => E3_2_1::Vb,
            2 => E3_2_1::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E3_2_2 {
    Va = -(1 << 8),
    Vb = 2,
    Vc,
}
impl Subj for E3_2_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_2_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_2_2::Va => D::Var(0, vec![]),
            E3_2_2::Vb => D::Var(1, vec![]),
            E3_2_2::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_2_2::Va,
            1 => E3_2_2::Vb,
            2 => E3_2_2::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum E3_2_3 {
    Va = -(1 << 8),
    Vb,
    Vc = 3,
}
impl Subj for E3_2_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_2_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: Some(int(3)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_2_3::Va => D::Var(0, vec![]),
            E3_2_3::Vb => D::Var(1, vec![]),
            E3_2_3::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_2_3::Va,
            1 => E3_2_3::Vb,
            2 => E3_2_3::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_3_0 {
    #[cbor(as_struct)] Va,
    Vb { bb: u8, a: Option<String> },
    Vc(u8, String),
}
impl Subj for E3_3_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_3_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_3_0::Va => D::Var(0, vec![]),
            E3_3_0::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            E3_3_0::Vc(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_3_0::Va,
            1 => E3_3_0::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => E3_3_0::Vc(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_3_1 {
    Va { bb: u8, a: Option<String> },
    Vb(u8, String),
    #[cbor(as_struct)] Vc,
}
impl Subj for E3_3_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_3_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_3_1::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E3_3_1::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            E3_3_1::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_3_1::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E3_3_1::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            2 => E3_3_1::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_3_2 {
    Va(u8, String),
    #[cbor(as_struct)] Vb,
    Vc { bb: u8, a: Option<String> },
}
impl Subj for E3_3_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_3_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_3_2::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E3_3_2::Vb => D::Var(1, vec![]),
            E3_3_2::Vc { bb: x0, a: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_3_2::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E3_3_2::Vb,
            2 => E3_3_2::Vc { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_3_3 {
    Va(u8, String),
    Vb { bb: u8, a: Option<String> },
    #[cbor(as_struct)] Vc,
}
impl Subj for E3_3_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_3_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_3_3::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E3_3_3::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            E3_3_3::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_3_3::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            1 => E3_3_3::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => E3_3_3::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_4_0 {
    #[cbor(skip)] Va,
    Vb,
    #[cbor(skip)] Vc(u8),
}
impl Subj for E3_4_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_4_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_4_0::Va => D::Var(0, vec![]),
            E3_4_0::Vb => D::Var(1, vec![]),
            E3_4_0::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_4_0::Va,
            1 => E3_4_0::Vb,
            2 => E3_4_0::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_4_1 {
    Va,
    #[cbor(skip)] Vb(u8),
    #[cbor(skip)] Vc,
}
impl Subj for E3_4_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_4_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_4_1::Va => D::Var(0, vec![]),
            E3_4_1::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_4_1::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_4_1::Va,
            1 => E3_4_1::Vb(Subj::from_d(&v[0])),
            2 => E3_4_1::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_4_2 {
    #[cbor(skip)] Va(u8),
    #[cbor(skip)] Vb,
    Vc,
}
impl Subj for E3_4_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_4_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_4_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_4_2::Vb => D::Var(1, vec![]),
            E3_4_2::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_4_2::Va(Subj::from_d(&v[0])),
            1 => E3_4_2::Vb,
            2 => E3_4_2::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_4_3 {
    #[cbor(skip)] Va(u8),
    Vb,
    #[cbor(skip)] Vc,
}
impl Subj for E3_4_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_4_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_4_3::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_4_3::Vb => D::Var(1, vec![]),
            E3_4_3::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_4_3::Va(Subj::from_d(&v[0])),
            1 => E3_4_3::Vb,
            2 => E3_4_3::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_5_0 {
    #[cbor(embed)] Va(EB),
    #[cbor(embed)] Vb(NM),
    Vc(NS),
}
impl Subj for E3_5_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_5_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_5_0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_5_0::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_5_0::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_5_0::Va(Subj::from_d(&v[0])),
            1 => E3_5_0::Vb(Subj::from_d(&v[0])),
            2 => E3_5_0::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_5_1 {
    #[cbor(embed)] Va(NM),
    Vb(NS),
    #[cbor(embed)] Vc(EB),
}
impl Subj for E3_5_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_5_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_5_1::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_5_1::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_5_1::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_5_1::Va(Subj::from_d(&v[0])),
            1 => E3_5_1::Vb(Subj::from_d(&v[0])),
            2 => E3_5_1::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_5_2 {
    Va(NS),
    #[cbor(embed)] Vb(EB),
    #[cbor(embed)] Vc(NM),
}
impl Subj for E3_5_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_5_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_5_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_5_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_5_2::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_5_2::Va(Subj::from_d(&v[0])),
            1 => E3_5_2::Vb(Subj::from_d(&v[0])),
            2 => E3_5_2::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_5_3 {
    Va(NS),
    #[cbor(embed)] Vb(NM),
    #[cbor(embed)] Vc(EB),
}
impl Subj for E3_5_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_5_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_5_3::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_5_3::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_5_3::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_5_3::Va(Subj::from_d(&v[0])),
            1 => E3_5_3::Vb(Subj::from_d(&v[0])),
            2 => E3_5_3::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_6_0 {
    #[cbor(embed)] Va(EX),
    #[cbor(embed)] Vb(EB),
    #[cbor(rename = 24)] Vc(String),
}
impl Subj for E3_6_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_6_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_6_0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_6_0::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_6_0::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_6_0::Va(Subj::from_d(&v[0])),
            1 => E3_6_0::Vb(Subj::from_d(&v[0])),
            2 => E3_6_0::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_6_1 {
    #[cbor(embed)] Va(EB),
    #[cbor(rename = 300)] Vb(String),
    #[cbor(embed)] Vc(EX),
}
impl Subj for E3_6_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_6_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_6_1::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_6_1::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_6_1::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_6_1::Va(Subj::from_d(&v[0])),
            1 => E3_6_1::Vb(Subj::from_d(&v[0])),
            2 => E3_6_1::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_6_2 {
    #[cbor(rename = 7)] Va(String),
    #[cbor(embed)] Vb(EX),
    #[cbor(embed)] Vc(EB),
}
impl Subj for E3_6_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_6_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_6_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_6_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_6_2::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_6_2::Va(Subj::from_d(&v[0])),
            1 => E3_6_2::Vb(Subj::from_d(&v[0])),
            2 => E3_6_2::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_6_3 {
    #[cbor(rename = 7)] Va(String),
    #[cbor(embed)] Vb(EB),
    #[cbor(embed)] Vc(EX),
}
impl Subj for E3_6_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_6_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_6_3::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_6_3::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_6_3::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_6_3::Va(Subj::from_d(&v[0])),
            1 => E3_6_3::Vb(Subj::from_d(&v[0])),
            2 => E3_6_3::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_7_0 {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = 300)] Vb(String),
    #[cbor(rename = "n2")] Vc,
}
impl Subj for E3_7_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_7_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("n2"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_7_0::Va => D::Var(0, vec![]),
            E3_7_0::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_7_0::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_7_0::Va,
            1 => E3_7_0::Vb(Subj::from_d(&v[0])),
            2 => E3_7_0::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_7_1 {
    #[cbor(rename = 7)] Va(String),
    #[cbor(rename = "")] Vb,
    #[cbor(rename = 24)] Vc,
}
impl Subj for E3_7_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_7_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_7_1::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_7_1::Vb => D::Var(1, vec![]),
            E3_7_1::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_7_1::Va(Subj::from_d(&v[0])),
            1 => E3_7_1::Vb,
            2 => E3_7_1::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_7_2 {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = 300)] Vb,
    #[cbor(rename = 24)] Vc(String),
}
impl Subj for E3_7_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_7_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_7_2::Va => D::Var(0, vec![]),
            E3_7_2::Vb => D::Var(1, vec![]),
            E3_7_2::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_7_2::Va,
            1 => E3_7_2::Vb,
            2 => E3_7_2::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_7_3 {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = 300)] Vb(String),
    #[cbor(rename = 24)] Vc,
}
impl Subj for E3_7_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_7_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_7_3::Va => D::Var(0, vec![]),
            E3_7_3::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_7_3::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_7_3::Va,
            1 => E3_7_3::Vb(Subj::from_d(&v[0])),
            2 => E3_7_3::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_8_0 {
    #[cbor(embed)] Va(NM),
    #[cbor(embed)] Vb(EA),
    Vc { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for E3_8_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_8_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_8_0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_8_0::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_8_0::Vc { x: x0, y: x1, z: x2 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_8_0::Va(Subj::from_d(&v[0])),
            1 => E3_8_0::Vb(Subj::from_d(&v[0])),
            2 => E3_8_0::Vc { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_8_1 {
    #[cbor(embed)] Va(EA),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(embed)] Vc(NM),
}
impl Subj for E3_8_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_8_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_8_1::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_8_1::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E3_8_1::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_8_1::Va(Subj::from_d(&v[0])),
            1 => E3_8_1::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            2 => E3_8_1::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_8_2 {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(embed)] Vb(NM),
    #[cbor(embed)] Vc(EA),
}
impl Subj for E3_8_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_8_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_8_2::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E3_8_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_8_2::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_8_2::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E3_8_2::Vb(Subj::from_d(&v[0])),
            2 => E3_8_2::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_8_3 {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(embed)] Vb(EA),
    #[cbor(embed)] Vc(NM),
}
impl Subj for E3_8_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_8_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_8_3::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            E3_8_3::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_8_3::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_8_3::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => E3_8_3::Vb(Subj::from_d(&v[0])),
            2 => E3_8_3::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_9_0 {
    #[cbor(embed)] Va(EA),
    #[cbor(skip)] Vb(u8),
    #[cbor(as_struct)] Vc,
}
impl Subj for E3_9_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_9_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_9_0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_9_0::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_9_0::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_9_0::Va(Subj::from_d(&v[0])),
            1 => E3_9_0::Vb(Subj::from_d(&v[0])),
            2 => E3_9_0::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_9_1 {
    #[cbor(skip)] Va(u8),
    #[cbor(as_struct)] Vb,
    #[cbor(embed)] Vc(EA),
}
impl Subj for E3_9_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_9_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_9_1::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_9_1::Vb => D::Var(1, vec![]),
            E3_9_1::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_9_1::Va(Subj::from_d(&v[0])),
            1 => E3_9_1::Vb,
            2 => E3_9_1::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_9_2 {
    #[cbor(as_struct)] Va,
    #[cbor(embed)] Vb(EA),
    #[cbor(skip)] Vc(u8),
}
impl Subj for E3_9_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_9_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_9_2::Va => D::Var(0, vec![]),
            E3_9_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_9_2::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_9_2::Va,
            1 => E3_9_2::Vb(Subj::from_d(&v[0])),
            2 => E3_9_2::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_9_3 {
    #[cbor(as_struct)] Va,
    #[cbor(skip)] Vb(u8),
    #[cbor(embed)] Vc(EA),
}
impl Subj for E3_9_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_9_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_9_3::Va => D::Var(0, vec![]),
            E3_9_3::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_9_3::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_9_3::Va,
            1 => E3_9_3::Vb(Subj::from_d(&v[0])),
            2 => E3_9_3::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_10_0 {
    Va,
    Vb,
    Vc,
}
impl Subj for E3_10_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_10_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_10_0::Va => D::Var(0, vec![]),
            E3_10_0::Vb => D::Var(1, vec![]),
            E3_10_0::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_10_0::Va,
            1 => E3_10_0::Vb,
            2 => E3_10_0::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_10_1 {
    Va,
    Vb,
    Vc,
}
impl Subj for E3_10_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_10_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_10_1::Va => D::Var(0, vec![]),
            E3_10_1::Vb => D::Var(1, vec![]),
            E3_10_1::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_10_1::Va,
            1 => E3_10_1::Vb,
            2 => E3_10_1::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_10_2 {
    Va,
    Vb,
    Vc,
}
impl Subj for E3_10_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_10_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_10_2::Va => D::Var(0, vec![]),
            E3_10_2::Vb => D::Var(1, vec![]),
            E3_10_2::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_10_2::Va,
            1 => E3_10_2::Vb,
            2 => E3_10_2::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_10_3 {
    Va,
    Vb,
    Vc,
}
impl Subj for E3_10_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_10_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_10_3::Va => D::Var(0, vec![]),
            E3_10_3::Vb => D::Var(1, vec![]),
            E3_10_3::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_10_3::Va,
            1 => E3_10_3::Vb,
            2 => E3_10_3::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_11_0 {
    #[cbor(embed)] Va(EB),
    #[cbor(embed)] Vb(EX),
    #[cbor(embed)] Vc(NM),
}
impl Subj for E3_11_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_11_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_11_0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_11_0::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_11_0::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_11_0::Va(Subj::from_d(&v[0])),
            1 => E3_11_0::Vb(Subj::from_d(&v[0])),
            2 => E3_11_0::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_11_1 {
    #[cbor(embed)] Va(EX),
    #[cbor(embed)] Vb(NM),
    #[cbor(embed)] Vc(EB),
}
impl Subj for E3_11_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_11_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_11_1::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_11_1::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_11_1::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_11_1::Va(Subj::from_d(&v[0])),
            1 => E3_11_1::Vb(Subj::from_d(&v[0])),
            2 => E3_11_1::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_11_2 {
    #[cbor(embed)] Va(NM),
    #[cbor(embed)] Vb(EB),
    #[cbor(embed)] Vc(EX),
}
impl Subj for E3_11_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_11_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_11_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_11_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_11_2::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_11_2::Va(Subj::from_d(&v[0])),
            1 => E3_11_2::Vb(Subj::from_d(&v[0])),
            2 => E3_11_2::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_11_3 {
    #[cbor(embed)] Va(NM),
    #[cbor(embed)] Vb(EX),
    #[cbor(embed)] Vc(EB),
}
impl Subj for E3_11_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_11_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_11_3::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_11_3::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_11_3::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_11_3::Va(Subj::from_d(&v[0])),
            1 => E3_11_3::Vb(Subj::from_d(&v[0])),
            2 => E3_11_3::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_12_0 {
    Va(),
    Vb {  },
    #[cbor(as_struct)] Vc,
}
impl Subj for E3_12_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_12_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_12_0::Va() => D::Var(0, vec![]),
            E3_12_0::Vb {  } => D::Var(1, vec![]),
            E3_12_0::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_12_0::Va(),
            1 => E3_12_0::Vb {  },
            2 => E3_12_0::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_12_1 {
    Va {  },
    #[cbor(as_struct)] Vb,
    Vc(),
}
impl Subj for E3_12_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_12_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_12_1::Va {  } => D::Var(0, vec![]),
            E3_12_1::Vb => D::Var(1, vec![]),
            E3_12_1::Vc() => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_12_1::Va {  },
            1 => E3_12_1::Vb,
            2 => E3_12_1::Vc(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_12_2 {
    #[cbor(as_struct)] Va,
    Vb(),
    Vc {  },
}
impl Subj for E3_12_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_12_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_12_2::Va => D::Var(0, vec![]),
            E3_12_2::Vb() => D::Var(1, vec![]),
            E3_12_2::Vc {  } => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_12_2::Va,
            1 => E3_12_2::Vb(),
            2 => E3_12_2::Vc {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_12_3 {
    #[cbor(as_struct)] Va,
    Vb {  },
    Vc(),
}
impl Subj for E3_12_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_12_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_12_3::Va => D::Var(0, vec![]),
            E3_12_3::Vb {  } => D::Var(1, vec![]),
            E3_12_3::Vc() => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_12_3::Va,
            1 => E3_12_3::Vb {  },
            2 => E3_12_3::Vc(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_13_0 {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
    Vc(Option<u8>),
}
impl Subj for E3_13_0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_13_0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_13_0::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E3_13_0::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            E3_13_0::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_13_0::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => E3_13_0::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            2 => E3_13_0::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_13_1 {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb(Option<u8>),
    #[cbor(as_array)] Vc { bb: u8, a: Option<String> },
}
impl Subj for E3_13_1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_13_1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_13_1::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            E3_13_1::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            E3_13_1::Vc { bb: x0, a: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_13_1::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => E3_13_1::Vb(Subj::from_d(&v[0])),
            2 => E3_13_1::Vc { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_13_2 {
    Va(Option<u8>),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
    #[cbor(allow_unknown)] Vc { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for E3_13_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_13_2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_13_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_13_2::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            E3_13_2::Vc { m: x0, l: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_13_2::Va(Subj::from_d(&v[0])),
            1 => E3_13_2::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => E3_13_2::Vc { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum E3_13_3 {
    Va(Option<u8>),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(as_array)] Vc { bb: u8, a: Option<String> },
}
impl Subj for E3_13_3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E3_13_3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E3_13_3::Va(x0) => D::Var(0, vec![x0.to_d()]),
            E3_13_3::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            E3_13_3::Vc { bb: x0, a: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E3_13_3::Va(Subj::from_d(&v[0])),
            1 => E3_13_3::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            2 => E3_13_3::Vc { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverEb {
    Eb(String),
    #[cbor(embed)] Em(EA),
}
impl Subj for OverEb {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverEb".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Eb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverEb::Eb(x0) => D::Var(0, vec![x0.to_d()]),
            OverEb::Em(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverEb::Eb(Subj::from_d(&v[0])),
            1 => OverEb::Em(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverEb2 {
    #[cbor(embed)] Em(EA),
    Eb(String),
}
impl Subj for OverEb2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverEb2".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Eb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverEb2::Em(x0) => D::Var(0, vec![x0.to_d()]),
            OverEb2::Eb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverEb2::Em(Subj::from_d(&v[0])),
            1 => OverEb2::Eb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverEaU {
    #[cbor(embed)] Em(EA),
    Ea,
}
impl Subj for OverEaU {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverEaU".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Ea"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverEaU::Em(x0) => D::Var(0, vec![x0.to_d()]),
            OverEaU::Ea => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverEaU::Em(Subj::from_d(&v[0])),
            1 => OverEaU::Ea,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverEaN {
    #[cbor(embed)] Em(EA),
    Ea(u8),
}
impl Subj for OverEaN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverEaN".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Ea"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverEaN::Em(x0) => D::Var(0, vec![x0.to_d()]),
            OverEaN::Ea(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverEaN::Em(Subj::from_d(&v[0])),
            1 => OverEaN::Ea(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverEbU {
    #[cbor(embed)] Em(EA),
    Eb,
}
impl Subj for OverEbU {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverEbU".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Eb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverEbU::Em(x0) => D::Var(0, vec![x0.to_d()]),
            OverEbU::Eb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverEbU::Em(Subj::from_d(&v[0])),
            1 => OverEbU::Eb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverEc {
    #[cbor(embed)] Em(EA),
    #[cbor(rename = 9)] Nine,
    Other(u8),
}
impl Subj for OverEc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverEc".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: M::U(9), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Other"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverEc::Em(x0) => D::Var(0, vec![x0.to_d()]),
            OverEc::Nine => D::Var(1, vec![]),
            OverEc::Other(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverEc::Em(Subj::from_d(&v[0])),
            1 => OverEc::Nine,
            2 => OverEc::Other(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u8)]
pub enum OverEcD {
    #[cbor(embed)] Em(EA),
    Nine = 9,
}
impl Subj for OverEcD {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverEcD".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Nine"), discr: Some(int(9)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverEcD::Em(x0) => D::Var(0, vec![x0.to_d()]),
            OverEcD::Nine => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverEcD::Em(Subj::from_d(&v[0])),
            1 => OverEcD::Nine,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverRen {
    #[cbor(rename = "Eb")] X { a: u8 },
    #[cbor(embed)] Em(EA),
    #[cbor(rename = "Ea", as_struct)] Y,
}
impl Subj for OverRen {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverRen".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Eb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Ea"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverRen::X { a: x0 } => D::Var(0, vec![x0.to_d()]),
            OverRen::Em(x0) => D::Var(1, vec![x0.to_d()]),
            OverRen::Y => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverRen::X { a: Subj::from_d(&v[0]) },
            1 => OverRen::Em(Subj::from_d(&v[0])),
            2 => OverRen::Y,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverTag {
    #[cbor(rename = "kind")] Kind(String),
    #[cbor(embed)] Em(EB),
}
impl Subj for OverTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverTag".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("kind"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverTag::Kind(x0) => D::Var(0, vec![x0.to_d()]),
            OverTag::Em(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverTag::Kind(Subj::from_d(&v[0])),
            1 => OverTag::Em(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverSt {
    #[cbor(embed)] Em(NM),
    #[cbor(rename = "p")] P(u8),
}
impl Subj for OverSt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverSt".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("p"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverSt::Em(x0) => D::Var(0, vec![x0.to_d()]),
            OverSt::P(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverSt::Em(Subj::from_d(&v[0])),
            1 => OverSt::P(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverStE {
    #[cbor(embed)] Em(NS),
    #[cbor(rename = "p")] P(String),
    U,
}
impl Subj for OverStE {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverStE".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("p"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverStE::Em(x0) => D::Var(0, vec![x0.to_d()]),
            OverStE::P(x0) => D::Var(1, vec![x0.to_d()]),
            OverStE::U => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverStE::Em(Subj::from_d(&v[0])),
            1 => OverStE::P(Subj::from_d(&v[0])),
            2 => OverStE::U,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverTwo {
    #[cbor(embed)] Em(EA),
    #[cbor(embed)] Em2(EX),
}
impl Subj for OverTwo {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverTwo".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] },
            VariantTy { key: t("Em2"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EX as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverTwo::Em(x0) => D::Var(0, vec![x0.to_d()]),
            OverTwo::Em2(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverTwo::Em(Subj::from_d(&v[0])),
            1 => OverTwo::Em2(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u8)]
pub enum OverNum {
    #[cbor(embed)] Em(u8),
    U,
    D = 5,
}
impl Subj for OverNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverNum".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("D"), discr: Some(int(5)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverNum::Em(x0) => D::Var(0, vec![x0.to_d()]),
            OverNum::U => D::Var(1, vec![]),
            OverNum::D => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverNum::Em(Subj::from_d(&v[0])),
            1 => OverNum::U,
            2 => OverNum::D,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverStr {
    #[cbor(embed)] Em(String),
    U,
    N(u8),
}
impl Subj for OverStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverStr".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverStr::Em(x0) => D::Var(0, vec![x0.to_d()]),
            OverStr::U => D::Var(1, vec![]),
            OverStr::N(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverStr::Em(Subj::from_d(&v[0])),
            1 => OverStr::U,
            2 => OverStr::N(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverOpt {
    U,
    #[cbor(embed)] Em(Option<u8>),
    N(u8),
}
impl Subj for OverOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverOpt".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverOpt::U => D::Var(0, vec![]),
            OverOpt::Em(x0) => D::Var(1, vec![x0.to_d()]),
            OverOpt::N(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverOpt::U,
            1 => OverOpt::Em(Subj::from_d(&v[0])),
            2 => OverOpt::N(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverVec {
    #[cbor(embed)] Em(Vec<String>),
    T(u8, u8),
}
impl Subj for OverVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverVec".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<String> as Subj>::ty())] },
            VariantTy { key: t("T"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverVec::Em(x0) => D::Var(0, vec![x0.to_d()]),
            OverVec::T(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverVec::Em(Subj::from_d(&v[0])),
            1 => OverVec::T(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum OverMap {
    #[cbor(embed)] Em(BTreeMap<String, u8>),
    T(u8),
}
impl Subj for OverMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "OverMap".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("T"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            OverMap::Em(x0) => D::Var(0, vec![x0.to_d()]),
            OverMap::T(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => OverMap::Em(Subj::from_d(&v[0])),
            1 => OverMap::T(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i8)]
pub enum Alike {
    #[cbor(rename = "1")] A,
    #[cbor(rename = 1)] B,
    C = -9,
    #[cbor(rename = "2")] D(u8),
    #[cbor(rename = 2)] E2(String),
}
impl Subj for Alike {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Alike".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("1"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(1), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("C"), discr: Some(int(-9)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("2"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(2), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Alike::A => D::Var(0, vec![]),
            Alike::B => D::Var(1, vec![]),
            Alike::C => D::Var(2, vec![]),
            Alike::D(x0) => D::Var(3, vec![x0.to_d()]),
            Alike::E2(x0) => D::Var(4, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Alike::A,
            1 => Alike::B,
            2 => Alike::C,
            3 => Alike::D(Subj::from_d(&v[0])),
            4 => Alike::E2(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum SwapN {
    #[cbor(rename = "B")] A,
    #[cbor(rename = "A")] B,
}
impl Subj for SwapN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "SwapN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("B"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            SwapN::A => D::Var(0, vec![]),
            SwapN::B => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => SwapN::A,
            1 => SwapN::B,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum SwapT {
    #[cbor(rename = "B")] A(u8),
    #[cbor(rename = "A")] B(u8),
    #[cbor(rename = "D")] C { x: u8 },
    #[cbor(rename = "C")] D,
}
impl Subj for SwapT {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "SwapT".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("D"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty())] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            SwapT::A(x0) => D::Var(0, vec![x0.to_d()]),
            SwapT::B(x0) => D::Var(1, vec![x0.to_d()]),
            SwapT::C { x: x0 } => D::Var(2, vec![x0.to_d()]),
            SwapT::D => D::Var(3, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => SwapT::A(Subj::from_d(&v[0])),
            1 => SwapT::B(Subj::from_d(&v[0])),
            2 => SwapT::C { x: Subj::from_d(&v[0]) },
            3 => SwapT::D,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum SameShape {
    A { x: u8 },
    B { x: u8 },
    C(u8, u8),
    D(u8, u8),
}
impl Subj for SameShape {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "SameShape".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty())] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("D"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            SameShape::A { x: x0 } => D::Var(0, vec![x0.to_d()]),
            SameShape::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
            SameShape::C(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            SameShape::D(x0, x1) => D::Var(3, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => SameShape::A { x: Subj::from_d(&v[0]) },
            1 => SameShape::B { x: Subj::from_d(&v[0]) },
            2 => SameShape::C(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => SameShape::D(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum UnitAndContent {
    A,
    #[cbor(rename = "A")] B(u8),
}
impl Subj for UnitAndContent {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "UnitAndContent".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            UnitAndContent::A => D::Var(0, vec![]),
            UnitAndContent::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => UnitAndContent::A,
            1 => UnitAndContent::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i32)]
pub enum Discr {
    V0 = 0,
    V1 = 1,
    V2 = 23,
    V3 = 24,
    V4 = 255,
    V5 = 256,
    V6 = 65535,
    V7 = 65536,
    V8 = 2147483647,
    V9 = -1,
    V10 = -24,
    V11 = -25,
    V12 = -256,
    V13 = -257,
    V14 = -2147483648,
}
impl Subj for Discr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Discr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("V0"), discr: Some(int(0)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V1"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V2"), discr: Some(int(23)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V3"), discr: Some(int(24)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V4"), discr: Some(int(255)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V5"), discr: Some(int(256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V6"), discr: Some(int(65535)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V7"), discr: Some(int(65536)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V8"), discr: Some(int(2147483647)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V9"), discr: Some(int(-1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V10"), discr: Some(int(-24)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V11"), discr: Some(int(-25)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V12"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V13"), discr: Some(int(-257)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V14"), discr: Some(int(-2147483648)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Discr::V0 => D::Var(0, vec![]),
            Discr::V1 => D::Var(1, vec![]),
            Discr::V2 => D::Var(2, vec![]),
            Discr::V3 => D::Var(3, vec![]),
            Discr::V4 => D::Var(4, vec![]),
            Discr::V5 => D::Var(5, vec![]),
            Discr::V6 => D::Var(6, vec![]),
            Discr::V7 => D::Var(7, vec![]),
            Discr::V8 => D::Var(8, vec![]),
            Discr::V9 => D::Var(9, vec![]),
            Discr::V10 => D::Var(10, vec![]),
            Discr::V11 => D::Var(11, vec![]),
            Discr::V12 => D::Var(12, vec![]),
            Discr::V13 => D::Var(13, vec![]),
            Discr::V14 => D::Var(14, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Discr::V0,
            1 => Discr::V1,
            2 => Discr::V2,
            3 => Discr::V3,
            4 => Discr::V4,
            5 => Discr::V5,
            6 => Discr::V6,
            7 => Discr::V7,
            8 => Discr::V8,
            9 => Discr::V9,
            10 => Discr::V10,
            11 => Discr::V11,
            12 => Discr::V12,
            13 => Discr::V13,
            14 => Discr::V14,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(i64)]
pub enum DiscrBig {
    V0 = 0i64,
    V1 = 4294967296i64,
    V2 = 9223372036854775807i64,
    V3 = -9223372036854775808i64,
    V4 = -1i64,
}
impl Subj for DiscrBig {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "DiscrBig".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("V0"), discr: Some(int(0)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V1"), discr: Some(int(4294967296)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V2"), discr: Some(int(9223372036854775807)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V3"), discr: Some(int(-9223372036854775808)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V4"), discr: Some(int(-1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            DiscrBig::V0 => D::Var(0, vec![]),
            DiscrBig::V1 => D::Var(1, vec![]),
            DiscrBig::V2 => D::Var(2, vec![]),
            DiscrBig::V3 => D::Var(3, vec![]),
            DiscrBig::V4 => D::Var(4, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => DiscrBig::V0,
            1 => DiscrBig::V1,
            2 => DiscrBig::V2,
            3 => DiscrBig::V3,
            4 => DiscrBig::V4,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u64)]
pub enum DiscrU {
    A = u64::MAX,
    B = 1u64 << 63,
    C = 0,
}
impl Subj for DiscrU {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "DiscrU".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: Some(int(18446744073709551615)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: Some(int(9223372036854775808)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("C"), discr: Some(int(0)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            DiscrU::A => D::Var(0, vec![]),
            DiscrU::B => D::Var(1, vec![]),
            DiscrU::C => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => DiscrU::A,
            1 => DiscrU::B,
            2 => DiscrU::C,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum DiscrAndName {
    #[cbor(rename = "x")] A = 3,
    #[cbor(rename = 4)] B,
    C,
}
impl Subj for DiscrAndName {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "DiscrAndName".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("x"), discr: Some(int(3)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(4), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            DiscrAndName::A => D::Var(0, vec![]),
            DiscrAndName::B => D::Var(1, vec![]),
            DiscrAndName::C => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => DiscrAndName::A,
            1 => DiscrAndName::B,
            2 => DiscrAndName::C,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u8)]
pub enum ContentDiscr {
    A(u8) = 3,
    B { x: u8 } = 9,
    #[cbor(as_struct)] C = 11,
    D = 12,
}
impl Subj for ContentDiscr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ContentDiscr".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: Some(int(3)), shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("B"), discr: Some(int(9)), shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty())] },
            VariantTy { key: t("C"), discr: Some(int(11)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("D"), discr: Some(int(12)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ContentDiscr::A(x0) => D::Var(0, vec![x0.to_d()]),
            ContentDiscr::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
            ContentDiscr::C => D::Var(2, vec![]),
            ContentDiscr::D => D::Var(3, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ContentDiscr::A(Subj::from_d(&v[0])),
            1 => ContentDiscr::B { x: Subj::from_d(&v[0]) },
            2 => ContentDiscr::C,
            3 => ContentDiscr::D,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum Many {
    V0,
    V1(i64),
    V2 { q: i64, b: u8 },
    V3(u8, String),
    V4,
    V5(i64),
    V6 { q: i64, b: u8 },
    V7(u8, String),
    V8,
    V9(i64),
    V10 { q: i64, b: u8 },
    V11(u8, String),
    V12,
    V13(i64),
    V14 { q: i64, b: u8 },
    V15(u8, String),
    V16,
    V17(i64),
    V18 { q: i64, b: u8 },
    V19(u8, String),
    V20,
    V21(i64),
    V22 { q: i64, b: u8 },
    V23(u8, String),
    V24,
    V25(i64),
    V26 { q: i64, b: u8 },
    V27(u8, String),
    V28,
    V29(i64),
    V30 { q: i64, b: u8 },
    V31(u8, String),
    V32,
    V33(i64),
    V34 { q: i64, b: u8 },
    V35(u8, String),
    V36,
    V37(i64),
    V38 { q: i64, b: u8 },
    V39(u8, String),
}
impl Subj for Many {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Many".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("V0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V1"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i64 as Subj>::ty())] },
            VariantTy { key: t("V2"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V3"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("V4"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V5"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i64 as Subj>::ty())] },
            VariantTy { key: t("V6"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V7"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("V8"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V9"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i64 as Subj>::ty())] },
            VariantTy { key: t("V10"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V11"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("V12"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V13"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i64 as Subj>::ty())] },
            VariantTy { key: t("V14"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V15"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("V16"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V17"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i64 as Subj>::ty())] },
            VariantTy { key: t("V18"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V19"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("V20"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V21"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i64 as Subj>::ty())] },
            VariantTy { key: t("V22"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V23"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("V24"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V25"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i64 as Subj>::ty())] },
            VariantTy { key: t("V26"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V27"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("V28"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V29"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i64 as Subj>::ty())] },
            VariantTy { key: t("V30"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V31"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("V32"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V33"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i64 as Subj>::ty())] },
            VariantTy { key: t("V34"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V35"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("V36"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V37"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i64 as Subj>::ty())] },
            VariantTy { key: t("V38"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V39"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Many::V0 => D::Var(0, vec![]),
            Many::V1(x0) => D::Var(1, vec![x0.to_d()]),
            Many::V2 { q: x0, b: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            Many::V3(x0, x1) => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            Many::V4 => D::Var(4, vec![]),
            Many::V5(x0) => D::Var(5, vec![x0.to_d()]),
            Many::V6 { q: x0, b: x1 } => D::Var(6, vec![x0.to_d(), x1.to_d()]),
            Many::V7(x0, x1) => D::Var(7, vec![x0.to_d(), x1.to_d()]),
            Many::V8 => D::Var(8, vec![]),
            Many::V9(x0) => D::Var(9, vec![x0.to_d()]),
            Many::V10 { q: x0, b: x1 } => D::Var(10, vec![x0.to_d(), x1.to_d()]),
            Many::V11(x0, x1) => D::Var(11, vec![x0.to_d(), x1.to_d()]),
            Many::V12 => D::Var(12, vec![]),
            Many::V13(x0) => D::Var(13, vec![x0.to_d()]),
            Many::V14 { q: x0, b: x1 } => D::Var(14, vec![x0.to_d(), x1.to_d()]),
            Many::V15(x0, x1) => D::Var(15, vec![x0.to_d(), x1.to_d()]),
            Many::V16 => D::Var(16, vec![]),
            Many::V17(x0) => D::Var(17, vec![x0.to_d()]),
            Many::V18 { q: x0, b: x1 } => D::Var(18, vec![x0.to_d(), x1.to_d()]),
            Many::V19(x0, x1) => D::Var(19, vec![x0.to_d(), x1.to_d()]),
            Many::V20 => D::Var(20, vec![]),
            Many::V21(x0) => D::Var(21, vec![x0.to_d()]),
            Many::V22 { q: x0, b: x1 } => D::Var(22, vec![x0.to_d(), x1.to_d()]),
            Many::V23(x0, x1) => D::Var(23, vec![x0.to_d(), x1.to_d()]),
            Many::V24 => D::Var(24, vec![]),
            Many::V25(x0) => D::Var(25, vec![x0.to_d()]),
            Many::V26 { q: x0, b: x1 } => D::Var(26, vec![x0.to_d(), x1.to_d()]),
            Many::V27(x0, x1) => D::Var(27, vec![x0.to_d(), x1.to_d()]),
            Many::V28 => D::Var(28, vec![]),
            Many::V29(x0) => D::Var(29, vec![x0.to_d()]),
            Many::V30 { q: x0, b: x1 } => D::Var(30, vec![x0.to_d(), x1.to_d()]),
            Many::V31(x0, x1) => D::Var(31, vec![x0.to_d(), x1.to_d()]),
            Many::V32 => D::Var(32, vec![]),
            Many::V33(x0) => D::Var(33, vec![x0.to_d()]),
            Many::V34 { q: x0, b: x1 } => D::Var(34, vec![x0.to_d(), x1.to_d()]),
            Many::V35(x0, x1) => D::Var(35, vec![x0.to_d(), x1.to_d()]),
            Many::V36 => D::Var(36, vec![]),
            Many::V37(x0) => D::Var(37, vec![x0.to_d()]),
            Many::V38 { q: x0, b: x1 } => D::Var(38, vec![x0.to_d(), x1.to_d()]),
            Many::V39(x0, x1) => D::Var(39, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Many::V0,
            1 => Many::V1(Subj::from_d(&v[0])),
            2 => Many::V2 { q: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) },
            3 => Many::V3(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            4 => Many::V4,
            5 => Many::V5(Subj::from_d(&v[0])),
            6 => Many::V6 { q: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) },
            7 => Many::V7(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            8 => Many::V8,
            9 => Many::V9(Subj::from_d(&v[0])),
            10 => Many::V10 { q: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) },
            11 => Many::V11(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            12 => Many::V12,
            13 => Many::V13(Subj::from_d(&v[0])),
            14 => Many::V14 { q: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) },
            15 => Many::V15(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            16 => Many::V16,
            17 => Many::V17(Subj::from_d(&v[0])),
            18 => Many::V18 { q: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) },
            19 => Many::V19(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            20 => Many::V20,
            21 => Many::V21(Subj::from_d(&v[0])),
            22 => Many::V22 { q: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) },
            23 => Many::V23(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            24 => Many::V24,
            25 => Many::V25(Subj::from_d(&v[0])),
            26 => Many::V26 { q: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) },
            27 => Many::V27(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            28 => Many::V28,
            29 => Many::V29(Subj::from_d(&v[0])),
            30 => Many::V30 { q: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) },
            31 => Many::V31(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            32 => Many::V32,
            33 => Many::V33(Subj::from_d(&v[0])),
            34 => Many::V34 { q: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) },
            35 => Many::V35(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            36 => Many::V36,
            37 => Many::V37(Subj::from_d(&v[0])),
            38 => Many::V38 { q: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) },
            39 => Many::V39(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum ManyU {
    #[cbor(rename = 0)] V0,
    #[cbor(rename = 37)] V1,
    #[cbor(rename = 33)] V2,
    #[cbor(rename = 29)] V3,
    #[cbor(rename = 25)] V4,
    #[cbor(rename = 21)] V5,
    #[cbor(rename = 17)] V6,
    #[cbor(rename = 13)] V7,
    #[cbor(rename = 9)] V8,
    #[cbor(rename = 5)] V9,
    #[cbor(rename = 1)] V10,
    #[cbor(rename = 38)] V11,
    #[cbor(rename = 34)] V12,
    #[cbor(rename = 30)] V13,
    #[cbor(rename = 26)] V14,
    #[cbor(rename = 22)] V15,
    #[cbor(rename = 18)] V16,
    #[cbor(rename = 14)] V17,
    #[cbor(rename = 10)] V18,
    #[cbor(rename = 6)] V19,
    #[cbor(rename = 2)] V20,
    #[cbor(rename = 39)] V21,
    #[cbor(rename = 35)] V22,
    #[cbor(rename = 31)] V23,
    #[cbor(rename = 27)] V24,
    #[cbor(rename = 23)] V25,
    #[cbor(rename = 19)] V26,
    #[cbor(rename = 15)] V27,
    #[cbor(rename = 11)] V28,
    #[cbor(rename = 7)] V29,
    #[cbor(rename = 3)] V30,
    #[cbor(rename = 40)] V31,
    #[cbor(rename = 36)] V32,
    #[cbor(rename = 32)] V33,
    #[cbor(rename = 28)] V34,
    #[cbor(rename = 24)] V35,
    #[cbor(rename = 20)] V36,
    #[cbor(rename = 16)] V37,
    #[cbor(rename = 12)] V38,
    #[cbor(rename = 8)] V39,
    #[cbor(rename = 4)] V40,
}
impl Subj for ManyU {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ManyU".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(0), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(37), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(33), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(29), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(25), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(21), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(17), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(13), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(9), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(5), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(1), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(38), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(34), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(30), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(26), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(22), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(18), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(14), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(10), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(6), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(2), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(39), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(35), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(31), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(27), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(23), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(19), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(15), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(11), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(3), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(40), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(36), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(32), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(28), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(20), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(16), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(12), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(8), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(4), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ManyU::V0 => D::Var(0, vec![]),
            ManyU::V1 => D::Var(1, vec![]),
            ManyU::V2 => D::Var(2, vec![]),
            ManyU::V3 => D::Var(3, vec![]),
            ManyU::V4 => D::Var(4, vec![]),
            ManyU::V5 => D::Var(5, vec![]),
            ManyU::V6 => D::Var(6, vec![]),
            ManyU::V7 => D::Var(7, vec![]),
            ManyU::V8 => D::Var(8, vec![]),
            ManyU::V9 => D::Var(9, vec![]),
            ManyU::V10 => D::Var(10, vec![]),
            ManyU::V11 => D::Var(11, vec![]),
            ManyU::V12 => D::Var(12, vec![]),
            ManyU::V13 => D::Var(13, vec![]),
            ManyU::V14 => D::Var(14, vec![]),
            ManyU::V15 => D::Var(15, vec![]),
            ManyU::V16 => D::Var(16, vec![]),
            ManyU::V17 => D::Var(17, vec![]),
            ManyU::V18 => D::Var(18, vec![]),
            ManyU::V19 => D::Var(19, vec![]),
            ManyU::V20 => D::Var(20, vec![]),
            ManyU::V21 => D::Var(21, vec![]),
            ManyU::V22 => D::Var(22, vec![]),
            ManyU::V23 => D::Var(23, vec![]),
            ManyU::V24 => D::Var(24, vec![]),
            ManyU::V25 => D::Var(25, vec![]),
            ManyU::V26 => D::Var(26, vec![]),
            ManyU::V27 => D::Var(27, vec![]),
            ManyU::V28 => D::Var(28, vec![]),
            ManyU::V29 => D::Var(29, vec![]),
            ManyU::V30 => D::Var(30, vec![]),
            ManyU::V31 => D::Var(31, vec![]),
            ManyU::V32 => D::Var(32, vec![]),
            ManyU::V33 => D::Var(33, vec![]),
            ManyU::V34 => D::Var(34, vec![]),
            ManyU::V35 => D::Var(35, vec![]),
            ManyU::V36 => D::Var(36, vec![]),
            ManyU::V37 => D::Var(37, vec![]),
            ManyU::V38 => D::Var(38, vec![]),
            ManyU::V39 => D::Var(39, vec![]),
            ManyU::V40 => D::Var(40, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ManyU::V0,
            1 => ManyU::V1,
            2 => ManyU::V2,
            3 => ManyU::V3,
            4 => ManyU::V4,
            5 => ManyU::V5,
            6 => ManyU::V6,
            7 => ManyU::V7,
            8 => ManyU::V8,
            9 => ManyU::V9,
            10 => ManyU::V10,
            11 => ManyU::V11,
            12 => ManyU::V12,
            13 => ManyU::V13,
            14 => ManyU::V14,
            15 => ManyU::V15,
            16 => ManyU::V16,
            17 => ManyU::V17,
            18 => ManyU::V18,
            19 => ManyU::V19,
            20 => ManyU::V20,
            21 => ManyU::V21,
            22 => ManyU::V22,
            23 => ManyU::V23,
            24 => ManyU::V24,
            25 => ManyU::V25,
            26 => ManyU::V26,
            27 => ManyU::V27,
            28 => ManyU::V28,
            29 => ManyU::V29,
            30 => ManyU::V30,
            31 => ManyU::V31,
            32 => ManyU::V32,
            33 => ManyU::V33,
            34 => ManyU::V34,
            35 => ManyU::V35,
            36 => ManyU::V36,
            37 => ManyU::V37,
            38 => ManyU::V38,
            39 => ManyU::V39,
            40 => ManyU::V40,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum ManyN {
    V0(u16),
    V1(u16),
    V2(u16),
    V3(u16),
    V4(u16),
    V5(u16),
    V6(u16),
    V7(u16),
    V8(u16),
    V9(u16),
    V10(u16),
    V11(u16),
    V12(u16),
    V13(u16),
    V14(u16),
    V15(u16),
    V16(u16),
    V17(u16),
    V18(u16),
    V19(u16),
    V20(u16),
    V21(u16),
    V22(u16),
    V23(u16),
    V24(u16),
    V25(u16),
    V26(u16),
    V27(u16),
    V28(u16),
    V29(u16),
    V30(u16),
    V31(u16),
    V32(u16),
    V33(u16),
    V34(u16),
    V35(u16),
    V36(u16),
    V37(u16),
    V38(u16),
    V39(u16),
    V40(u16),
    V41(u16),
    V42(u16),
    V43(u16),
    V44(u16),
    V45(u16),
    V46(u16),
    V47(u16),
    V48(u16),
    V49(u16),
    V50(u16),
    V51(u16),
    V52(u16),
    V53(u16),
    V54(u16),
    V55(u16),
    V56(u16),
    V57(u16),
    V58(u16),
    V59(u16),
    V60(u16),
    V61(u16),
    V62(u16),
    V63(u16),
    V64(u16),
    V65(u16),
    V66(u16),
    V67(u16),
    V68(u16),
    V69(u16),
}
impl Subj for ManyN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ManyN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("V0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V1"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V2"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V3"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V4"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V5"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V6"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V7"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V8"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V9"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V10"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V11"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V12"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V13"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V14"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V15"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V16"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V17"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V18"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V19"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V20"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V21"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V22"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V23"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V24"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V25"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V26"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V27"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V28"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V29"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V30"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V31"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V32"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V33"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V34"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V35"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V36"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V37"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V38"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V39"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V40"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V41"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V42"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V43"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V44"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V45"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V46"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V47"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V48"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V49"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V50"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V51"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V52"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V53"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V54"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V55"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V56"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V57"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V58"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V59"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V60"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V61"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V62"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V63"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V64"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V65"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V66"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V67"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V68"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("V69"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ManyN::V0(x0) => D::Var(0, vec![x0.to_d()]),
            ManyN::V1(x0) => D::Var(1, vec![x0.to_d()]),
            ManyN::V2(x0) => D::Var(2, vec![x0.to_d()]),
            ManyN::V3(x0) => D::Var(3, vec![x0.to_d()]),
            ManyN::V4(x0) => D::Var(4, vec![x0.to_d()]),
            ManyN::V5(x0) => D::Var(5, vec![x0.to_d()]),
            ManyN::V6(x0) => D::Var(6, vec![x0.to_d()]),
            ManyN::V7(x0) => D::Var(7, vec![x0.to_d()]),
            ManyN::V8(x0) => D::Var(8, vec![x0.to_d()]),
            ManyN::V9(x0) => D::Var(9, vec![x0.to_d()]),
            ManyN::V10(x0) => D::Var(10, vec![x0.to_d()]),
            ManyN::V11(x0) => D::Var(11, vec![x0.to_d()]),
            ManyN::V12(x0) => D::Var(12, vec![x0.to_d()]),
            ManyN::V13(x0) => D::Var(13, vec![x0.to_d()]),
            ManyN::V14(x0) => D::Var(14, vec![x0.to_d()]),
            ManyN::V15(x0) => D::Var(15, vec![x0.to_d()]),
            ManyN::V16(x0) => D::Var(16, vec![x0.to_d()]),
            ManyN::V17(x0) => D::Var(17, vec![x0.to_d()]),
            ManyN::V18(x0) => D::Var(18, vec![x0.to_d()]),
            ManyN::V19(x0) => D::Var(19, vec![x0.to_d()]),
            ManyN::V20(x0) => D::Var(20, vec![x0.to_d()]),
            ManyN::V21(x0) => D::Var(21, vec![x0.to_d()]),
            ManyN::V22(x0) => D::Var(22, vec![x0.to_d()]),
            ManyN::V23(x0) => D::Var(23, vec![x0.to_d()]),
            ManyN::V24(x0) => D::Var(24, vec![x0.to_d()]),
            ManyN::V25(x0) => D::Var(25, vec![x0.to_d()]),
            ManyN::V26(x0) => D::Var(26, vec![x0.to_d()]),
            ManyN::V27(x0) => D::Var(27, vec![x0.to_d()]),
            ManyN::V28(x0) => D::Var(28, vec![x0.to_d()]),
            ManyN::V29(x0) => D::Var(29, vec![x0.to_d()]),
            ManyN::V30(x0) => D::Var(30, vec![x0.to_d()]),
            ManyN::V31(x0) => D::Var(31, vec![x0.to_d()]),
            ManyN::V32(x0) => D::Var(32, vec![x0.to_d()]),
            ManyN::V33(x0) => D::Var(33, vec![x0.to_d()]),
            ManyN::V34(x0) => D::Var(34, vec![x0.to_d()]),
            ManyN::V35(x0) => D::Var(35, vec![x0.to_d()]),
            ManyN::V36(x0) => D::Var(36, vec![x0.to_d()]),
            ManyN::V37(x0) => D::Var(37, vec![x0.to_d()]),
            ManyN::V38(x0) => D::Var(38, vec![x0.to_d()]),
            ManyN::V39(x0) => D::Var(39, vec![x0.to_d()]),
            ManyN::V40(x0) => D::Var(40, vec![x0.to_d()]),
            ManyN::V41(x0) => D::Var(41, vec![x0.to_d()]),
            ManyN::V42(x0) => D::Var(42, vec![x0.to_d()]),
            ManyN::V43(x0) => D::Var(43, vec![x0.to_d()]),
            ManyN::V44(x0) => D::Var(44, vec![x0.to_d()]),
            ManyN::V45(x0) => D::Var(45, vec![x0.to_d()]),
            ManyN::V46(x0) => D::Var(46, vec![x0.to_d()]),
            ManyN::V47(x0) => D::Var(47, vec![x0.to_d()]),
            ManyN::V48(x0) => D::Var(48, vec![x0.to_d()]),
            ManyN::V49(x0) => D::Var(49, vec![x0.to_d()]),
            ManyN::V50(x0) => D::Var(50, vec![x0.to_d()]),
            ManyN::V51(x0) => D::Var(51, vec![x0.to_d()]),
            ManyN::V52(x0) => D::Var(52, vec![x0.to_d()]),
            ManyN::V53(x0) => D::Var(53, vec![x0.to_d()]),
            ManyN::V54(x0) => D::Var(54, vec![x0.to_d()]),
            ManyN::V55(x0) => D::Var(55, vec![x0.to_d()]),
            ManyN::V56(x0) => D::Var(56, vec![x0.to_d()]),
            ManyN::V57(x0) => D::Var(57, vec![x0.to_d()]),
            ManyN::V58(x0) => D::Var(58, vec![x0.to_d()]),
            ManyN::V59(x0) => D::Var(59, vec![x0.to_d()]),
            ManyN::V60(x0) => D::Var(60, vec![x0.to_d()]),
            ManyN::V61(x0) => D::Var(61, vec![x0.to_d()]),
            ManyN::V62(x0) => D::Var(62, vec![x0.to_d()]),
            ManyN::V63(x0) => D::Var(63, vec![x0.to_d()]),
            ManyN::V64(x0) => D::Var(64, vec![x0.to_d()]),
            ManyN::V65(x0) => D::Var(65, vec![x0.to_d()]),
            ManyN::V66(x0) => D::Var(66, vec![x0.to_d()]),
            ManyN::V67(x0) => D::Var(67, vec![x0.to_d()]),
            ManyN::V68(x0) => D::Var(68, vec![x0.to_d()]),
            ManyN::V69(x0) => D::Var(69, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ManyN::V0(Subj::from_d(&v[0])),
            1 => ManyN::V1(Subj::from_d(&v[0])),
            2 => ManyN::V2(Subj::from_d(&v[0])),
            3 => ManyN::V3(Subj::from_d(&v[0])),
            4 => ManyN::V4(Subj::from_d(&v[0])),
            5 => ManyN::V5(Subj::from_d(&v[0])),
            6 => ManyN::V6(Subj::from_d(&v[0])),
            7 => ManyN::V7(Subj::from_d(&v[0])),
            8 => ManyN::V8(Subj::from_d(&v[0])),
            9 => ManyN::V9(Subj::from_d(&v[0])),
            10 => ManyN::V10(Subj::from_d(&v[0])),
            11 => ManyN::V11(Subj::from_d(&v[0])),
            12 => ManyN::V12(Subj::from_d(&v[0])),
            13 => ManyN::V13(Subj::from_d(&v[0])),
            14 => ManyN::V14(Subj::from_d(&v[0])),
            15 => ManyN::V15(Subj::from_d(&v[0])),
            16 => ManyN::V16(Subj::from_d(&v[0])),
            17 => ManyN::V17(Subj::from_d(&v[0])),
            18 => ManyN::V18(Subj::from_d(&v[0])),
            19 => ManyN::V19(Subj::from_d(&v[0])),
            20 => ManyN::V20(Subj::from_d(&v[0])),
            21 => ManyN::V21(Subj::from_d(&v[0])),
            22 => ManyN::V22(Subj::from_d(&v[0])),
            23 => ManyN::V23(Subj::from_d(&v[0])),
            24 => ManyN::V24(Subj::from_d(&v[0])),
            25 => ManyN::V25(Subj::from_d(&v[0])),
            26 => ManyN::V26(Subj::from_d(&v[0])),
            27 => ManyN::V27(Subj::from_d(&v[0])),
            28 => ManyN::V28(Subj::from_d(&v[0])),
            29 => ManyN::V29(Subj::from_d(&v[0])),
            30 => ManyN::V30(Subj::from_d(&v[0])),
            31 => ManyN::V31(Subj::from_d(&v[0])),
            32 => ManyN::V32(Subj::from_d(&v[0])),
            33 => ManyN::V33(Subj::from_d(&v[0])),
            34 => ManyN::V34(Subj::from_d(&v[0])),
            35 => ManyN::V35(Subj::from_d(&v[0])),
            36 => ManyN::V36(Subj::from_d(&v[0])),
            37 => ManyN::V37(Subj::from_d(&v[0])),
            38 => ManyN::V38(Subj::from_d(&v[0])),
            39 => ManyN::V39(Subj::from_d(&v[0])),
            40 => ManyN::V40(Subj::from_d(&v[0])),
            41 => ManyN::V41(Subj::from_d(&v[0])),
            42 => ManyN::V42(Subj::from_d(&v[0])),
            43 => ManyN::V43(Subj::from_d(&v[0])),
            44 => ManyN::V44(Subj::from_d(&v[0])),
            45 => ManyN::V45(Subj::from_d(&v[0])),
            46 => ManyN::V46(Subj::from_d(&v[0])),
            47 => ManyN::V47(Subj::from_d(&v[0])),
            48 => ManyN::V48(Subj::from_d(&v[0])),
            49 => ManyN::V49(Subj::from_d(&v[0])),
            50 => ManyN::V50(Subj::from_d(&v[0])),
            51 => ManyN::V51(Subj::from_d(&v[0])),
            52 => ManyN::V52(Subj::from_d(&v[0])),
            53 => ManyN::V53(Subj::from_d(&v[0])),
            54 => ManyN::V54(Subj::from_d(&v[0])),
            55 => ManyN::V55(Subj::from_d(&v[0])),
            56 => ManyN::V56(Subj::from_d(&v[0])),
            57 => ManyN::V57(Subj::from_d(&v[0])),
            58 => ManyN::V58(Subj::from_d(&v[0])),
            59 => ManyN::V59(Subj::from_d(&v[0])),
            60 => ManyN::V60(Subj::from_d(&v[0])),
            61 => ManyN::V61(Subj::from_d(&v[0])),
            62 => ManyN::V62(Subj::from_d(&v[0])),
            63 => ManyN::V63(Subj::from_d(&v[0])),
            64 => ManyN::V64(Subj::from_d(&v[0])),
            65 => ManyN::V65(Subj::from_d(&v[0])),
            66 => ManyN::V66(Subj::from_d(&v[0])),
            67 => ManyN::V67(Subj::from_d(&v[0])),
            68 => ManyN::V68(Subj::from_d(&v[0])),
            69 => ManyN::V69(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum Many300 {
    V0,
    V1,
    V2,
    V3,
    V4,
    V5,
    V6,
    V7,
    V8,
    V9,
    V10,
    V11,
    V12,
    V13,
    V14,
    V15,
    V16,
    V17,
    V18,
    V19,
    V20,
    V21,
    V22,
    V23,
    V24,
    V25,
    V26,
    V27,
    V28,
    V29,
    V30,
    V31,
    V32,
    V33,
    V34,
    V35,
    V36,
    V37,
    V38,
    V39,
    V40,
    V41,
    V42,
    V43,
    V44,
    V45,
    V46,
    V47,
    V48,
    V49,
    V50,
    V51,
    V52,
    V53,
    V54,
    V55,
    V56,
    V57,
    V58,
    V59,
    V60,
    V61,
    V62,
    V63,
    V64,
    V65,
    V66,
    V67,
    V68,
    V69,
    V70,
    V71,
    V72,
    V73,
    V74,
    V75,
    V76,
    V77,
    V78,
    V79,
    V80,
    V81,
    V82,
    V83,
    V84,
    V85,
    V86,
    V87,
    V88,
    V89,
    V90,
    V91,
    V92,
    V93,
    V94,
    V95,
    V96,
    V97,
    V98,
    V99,
    V100,
    V101,
    V102,
    V103,
    V104,
    V105,
    V106,
    V107,
    V108,
    V109,
    V110,
    V111,
    V112,
    V113,
    V114,
    V115,
    V116,
    V117,
    V118,
    V119,
    V120,
    V121,
    V122,
    V123,
    V124,
    V125,
    V126,
    V127,
    V128,
    V129,
    V130,
    V131,
    V132,
    V133,
    V134,
    V135,
    V136,
    V137,
    V138,
    V139,
    V140,
    V141,
    V142,
    V143,
    V144,
    V145,
    V146,
    V147,
    V148,
    V149,
    V150,
    V151,
    V152,
    V153,
    V154,
    V155,
    V156,
    V157,
    V158,
    V159,
    V160,
    V161,
    V162,
    V163,
    V164,
    V165,
    V166,
    V167,
    V168,
    V169,
    V170,
    V171,
    V172,
    V173,
    V174,
    V175,
    V176,
    V177,
    V178,
    V179,
    V180,
    V181,
    V182,
    V183,
    V184,
    V185,
    V186,
    V187,
    V188,
    V189,
    V190,
    V191,
    V192,
    V193,
    V194,
    V195,
    V196,
    V197,
    V198,
    V199,
    V200,
    V201,
    V202,
    V203,
    V204,
    V205,
    V206,
    V207,
    V208,
    V209,
    V210,
    V211,
    V212,
    V213,
    V214,
    V215,
    V216,
    V217,
    V218,
    V219,
    V220,
    V221,
    V222,
    V223,
    V224,
    V225,
    V226,
    V227,
    V228,
    V229,
    V230,
    V231,
    V232,
    V233,
    V234,
    V235,
    V236,
    V237,
    V238,
    V239,
    V240,
    V241,
    V242,
    V243,
    V244,
    V245,
    V246,
    V247,
    V248,
    V249,
    V250,
    V251,
    V252,
    V253,
    V254,
    V255,
    V256,
    V257,
    V258,
    V259,
    V260,
    V261,
    V262,
    V263,
    V264,
    V265,
    V266,
    V267,
    V268,
    V269,
    V270,
    V271,
    V272,
    V273,
    V274,
    V275,
    V276,
    V277,
    V278,
    V279,
    V280,
    V281,
    V282,
    V283,
    V284,
    V285,
    V286,
    V287,
    V288,
    V289,
    V290,
    V291,
    V292,
    V293,
    V294,
    V295,
    V296,
    V297,
    V298,
    V299,
}
impl Subj for Many300 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Many300".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("V0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V1"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V2"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V3"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V4"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V5"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V6"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V7"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V8"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V9"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V10"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V11"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V12"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V13"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V14"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V15"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V16"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V17"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V18"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V19"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V20"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V21"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V22"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V23"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V24"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V25"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V26"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V27"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V28"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V29"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V30"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V31"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V32"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V33"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V34"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V35"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V36"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V37"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V38"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V39"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V40"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V41"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V42"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V43"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V44"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V45"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V46"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V47"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V48"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V49"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V50"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V51"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V52"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V53"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V54"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V55"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V56"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V57"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V58"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V59"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V60"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V61"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V62"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V63"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V64"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V65"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V66"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V67"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V68"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V69"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V70"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V71"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V72"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V73"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V74"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V75"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V76"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V77"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V78"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V79"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V80"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V81"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V82"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V83"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V84"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V85"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V86"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V87"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V88"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V89"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V90"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V91"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V92"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V93"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V94"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V95"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V96"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V97"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V98"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V99"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V100"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V101"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V102"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V103"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V104"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V105"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V106"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V107"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V108"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V109"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V110"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V111"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V112"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V113"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V114"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V115"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V116"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V117"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V118"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V119"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V120"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V121"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V122"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V123"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V124"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V125"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V126"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V127"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V128"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V129"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V130"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V131"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V132"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V133"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V134"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V135"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V136"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V137"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V138"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V139"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V140"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V141"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V142"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V143"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V144"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V145"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V146"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V147"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V148"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V149"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V150"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V151"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V152"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V153"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V154"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V155"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V156"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V157"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V158"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V159"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V160"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V161"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V162"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V163"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V164"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V165"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V166"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V167"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V168"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V169"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V170"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V171"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V172"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V173"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V174"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V175"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V176"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V177"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V178"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V179"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V180"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V181"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V182"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V183"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V184"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V185"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V186"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V187"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V188"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V189"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V190"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V191"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V192"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V193"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V194"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V195"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V196"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V197"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V198"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V199"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V200"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V201"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V202"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V203"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V204"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V205"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V206"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V207"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V208"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V209"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V210"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V211"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V212"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V213"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V214"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V215"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V216"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V217"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V218"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V219"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V220"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V221"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V222"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V223"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V224"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V225"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V226"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V227"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V228"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V229"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V230"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V231"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V232"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V233"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V234"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V235"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V236"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V237"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V238"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V239"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V240"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V241"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V242"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V243"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V244"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V245"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V246"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V247"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V248"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V249"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V250"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V251"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V252"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V253"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V254"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V255"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V256"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V257"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V258"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V259"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V260"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V261"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V262"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V263"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V264"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V265"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V266"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V267"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V268"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V269"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V270"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V271"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V272"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V273"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V274"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V275"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V276"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V277"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V278"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V279"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V280"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V281"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V282"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V283"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V284"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V285"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V286"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V287"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V288"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V289"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V290"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V291"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V292"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V293"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V294"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V295"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V296"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V297"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V298"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V299"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Many300::V0 => D::Var(0, vec![]),
            Many300::V1 => D::Var(1, vec![]),
            Many300::V2 => D::Var(2, vec![]),
            Many300::V3 => D::Var(3, vec![]),
            Many300::V4 => D::Var(4, vec![]),
            Many300::V5 => D::Var(5, vec![]),
            Many300::V6 => D::Var(6, vec![]),
            Many300::V7 => D::Var(7, vec![]),
            Many300::V8 => D::Var(8, vec![]),
            Many300::V9 => D::Var(9, vec![]),
            Many300::V10 => D::Var(10, vec![]),
            Many300::V11 => D::Var(11, vec![]),
            Many300::V12 => D::Var(12, vec![]),
            Many300::V13 => D::Var(13, vec![]),
            Many300::V14 => D::Var(14, vec![]),
            Many300::V15 => D::Var(15, vec![]),
            Many300::V16 => D::Var(16, vec![]),
            Many300::V17 => D::Var(17, vec![]),
            Many300::V18 => D::Var(18, vec![]),
            Many300::V19 => D::Var(19, vec![]),
            Many300::V20 => D::Var(20, vec![]),
            Many300::V21 => D::Var(21, vec![]),
            Many300::V22 => D::Var(22, vec![]),
            Many300::V23 => D::Var(23, vec![]),
            Many300::V24 => D::Var(24, vec![]),
            Many300::V25 => D::Var(25, vec![]),
            Many300::V26 => D::Var(26, vec![]),
            Many300::V27 => D::Var(27, vec![]),
            Many300::V28 => D::Var(28, vec![]),
            Many300::V29 => D::Var(29, vec![]),
            Many300::V30 => D::Var(30, vec![]),
            Many300::V31 => D::Var(31, vec![]),
            Many300::V32 => D::Var(32, vec![]),
            Many300::V33 => D::Var(33, vec![]),
            Many300::V34 => D::Var(34, vec![]),
            Many300::V35 => D::Var(35, vec![]),
            Many300::V36 => D::Var(36, vec![]),
            Many300::V37 => D::Var(37, vec![]),
            Many300::V38 => D::Var(38, vec![]),
            Many300::V39 => D::Var(39, vec![]),
            Many300::V40 => D::Var(40, vec![]),
            Many300::V41 => D::Var(41, vec![]),
            Many300::V42 => D::Var(42, vec![]),
            Many300::V43 => D::Var(43, vec![]),
            Many300::V44 => D::Var(44, vec![]),
            Many300::V45 => D::Var(45, vec![]),
            Many300::V46 => D::Var(46, vec![]),
            Many300::V47 => D::Var(47, vec![]),
            Many300::V48 => D::Var(48, vec![]),
            Many300::V49 => D::Var(49, vec![]),
            Many300::V50 => D::Var(50, vec![]),
            Many300::V51 => D::Var(51, vec![]),
            Many300::V52 => D::Var(52, vec![]),
            Many300::V53 => D::Var(53, vec![]),
            Many300::V54 => D::Var(54, vec![]),
            Many300::V55 => D::Var(55, vec![]),
            Many300::V56 => D::Var(56, vec![]),
            Many300::V57 => D::Var(57, vec![]),
            Many300::V58 => D::Var(58, vec![]),
            Many300::V59 => D::Var(59, vec![]),
            Many300::V60 => D::Var(60, vec![]),
            Many300::V61 => D::Var(61, vec![]),
            Many300::V62 => D::Var(62, vec![]),
            Many300::V63 => D::Var(63, vec![]),
            Many300::V64 => D::Var(64, vec![]),
            Many300::V65 => D::Var(65, vec![]),
            Many300::V66 => D::Var(66, vec![]),
            Many300::V67 => D::Var(67, vec![]),
            Many300::V68 => D::Var(68, vec![]),
            Many300::V69 => D::Var(69, vec![]),
            Many300::V70 => D::Var(70, vec![]),
            Many300::V71 => D::Var(71, vec![]),
            Many300::V72 => D::Var(72, vec![]),
            Many300::V73 => D::Var(73, vec![]),
            Many300::V74 => D::Var(74, vec![]),
            Many300::V75 => D::Var(75, vec![]),
            Many300::V76 => D::Var(76, vec![]),
            Many300::V77 => D::Var(77, vec![]),
            Many300::V78 => D::Var(78, vec![]),
            Many300::V79 => D::Var(79, vec![]),
            Many300::V80 => D::Var(80, vec![]),
            Many300::V81 => D::Var(81, vec![]),
            Many300::V82 => D::Var(82, vec![]),
            Many300::V83 => D::Var(83, vec![]),
            Many300::V84 => D::Var(84, vec![]),
            Many300::V85 => D::Var(85, vec![]),
            Many300::V86 => D::Var(86, vec![]),
            Many300::V87 => D::Var(87, vec![]),
            Many300::V88 => D::Var(88, vec![]),
            Many300::V89 => D::Var(89, vec![]),
            Many300::V90 => D::Var(90, vec![]),
            Many300::V91 => D::Var(91, vec![]),
            Many300::V92 => D::Var(92, vec![]),
            Many300::V93 => D::Var(93, vec![]),
            Many300::V94 => D::Var(94, vec![]),
            Many300::V95 => D::Var(95, vec![]),
            Many300::V96 => D::Var(96, vec![]),
            Many300::V97 => D::Var(97, vec![]),
            Many300::V98 => D::Var(98, vec![]),
            Many300::V99 => D::Var(99, vec![]),
            Many300::V100 => D::Var(100, vec![]),
            Many300::V101 => D::Var(101, vec![]),
            Many300::V102 => D::Var(102, vec![]),
            Many300::V103 => D::Var(103, vec![]),
            Many300::V104 => D::Var(104, vec![]),
            Many300::V105 => D::Var(105, vec![]),
            Many300::V106 => D::Var(106, vec![]),
            Many300::V107 => D::Var(107, vec![]),
            Many300::V108 => D::Var(108, vec![]),
            Many300::V109 => D::Var(109, vec![]),
            Many300::V110 => D::Var(110, vec![]),
            Many300::V111 => D::Var(111, vec![]),
            Many300::V112 => D::Var(112, vec![]),
            Many300::V113 => D::Var(113, vec![]),
            Many300::V114 => D::Var(114, vec![]),
            Many300::V115 => D::Var(115, vec![]),
            Many300::V116 => D::Var(116, vec![]),
            Many300::V117 => D::Var(117, vec![]),
            Many300::V118 => D::Var(118, vec![]),
            Many300::V119 => D::Var(119, vec![]),
            Many300::V120 => D::Var(120, vec![]),
            Many300::V121 => D::Var(121, vec![]),
            Many300::V122 => D::Var(122, vec![]),
            Many300::V123 => D::Var(123, vec![]),
            Many300::V124 => D::Var(124, vec![]),
            Many300::V125 => D::Var(125, vec![]),
            Many300::V126 => D::Var(126, vec![]),
            Many300::V127 => D::Var(127, vec![]),
            Many300::V128 => D::Var(128, vec![]),
            Many300::V129 => D::Var(129, vec![]),
            Many300::V130 => D::Var(130, vec![]),
            Many300::V131 => D::Var(131, vec![]),
            Many300::V132 => D::Var(132, vec![]),
            Many300::V133 => D::Var(133, vec![]),
            Many300::V134 => D::Var(134, vec![]),
            Many300::V135 => D::Var(135, vec![]),
            Many300::V136 => D::Var(136, vec![]),
            Many300::V137 => D::Var(137, vec![]),
            Many300::V138 => D::Var(138, vec![]),
            Many300::V139 => D::Var(139, vec![]),
            Many300::V140 => D::Var(140, vec![]),
            Many300::V141 => D::Var(141, vec![]),
            Many300::V142 => D::Var(142, vec![]),
            Many300::V143 => D::Var(143, vec![]),
            Many300::V144 => D::Var(144, vec![]),
            Many300::V145 => D::Var(145, vec![]),
            Many300::V146 => D::Var(146, vec![]),
            Many300::V147 => D::Var(147, vec![]),
            Many300::V148 => D::Var(148, vec![]),
            Many300::V149 => D::Var(149, vec![]),
            Many300::V150 => D::Var(150, vec![]),
            Many300::V151 => D::Var(151, vec![]),
            Many300::V152 => D::Var(152, vec![]),
            Many300::V153 => D::Var(153, vec![]),
            Many300::V154 => D::Var(154, vec![]),
            Many300::V155 => D::Var(155, vec![]),
            Many300::V156 => D::Var(156, vec![]),
            Many300::V157 => D::Var(157, vec![]),
            Many300::V158 => D::Var(158, vec![]),
            Many300::V159 => D::Var(159, vec![]),
            Many300::V160 => D::Var(160, vec![]),
            Many300::V161 => D::Var(161, vec![]),
            Many300::V162 => D::Var(162, vec![]),
            Many300::V163 => D::Var(163, vec![]),
            Many300::V164 => D::Var(164, vec![]),
            Many300::V165 => D::Var(165, vec![]),
            Many300::V166 => D::Var(166, vec![]),
            Many300::V167 => D::Var(167, vec![]),
            Many300::V168 => D::Var(168, vec![]),
            Many300::V169 => D::Var(169, vec![]),
            Many300::V170 => D::Var(170, vec![]),
            Many300::V171 => D::Var(171, vec![]),
            Many300::V172 => D::Var(172, vec![]),
            Many300::V173 => D::Var(173, vec![]),
            Many300::V174 => D::Var(174, vec![]),
            Many300::V175 => D::Var(175, vec![]),
            Many300::V176 => D::Var(176, vec![]),
            Many300::V177 => D::Var(177, vec![]),
            Many300::V178 => D::Var(178, vec![]),
            Many300::V179 => D::Var(179, vec![]),
            Many300::V180 => D::Var(180, vec![]),
            Many300::V181 => D::Var(181, vec![]),
            Many300::V182 => D::Var(182, vec![]),
            Many300::V183 => D::Var(183, vec![]),
            Many300::V184 => D::Var(184, vec![]),
            Many300::V185 => D::Var(185, vec![]),
            Many300::V186 => D::Var(186, vec![]),
            Many300::V187 => D::Var(187, vec![]),
            Many300::V188 => D::Var(188, vec![]),
            Many300::V189 => D::Var(189, vec![]),
            Many300::V190 => D::Var(190, vec![]),
            Many300::V191 => D::Var(191, vec![]),
            Many300::V192 => D::Var(192, vec![]),
            Many300::V193 => D::Var(193, vec![]),
            Many300::V194 => D::Var(194, vec![]),
            Many300::V195 => D::Var(195, vec![]),
            Many300::V196 => D::Var(196, vec![]),
            Many300::V197 => D::Var(197, vec![]),
            Many300::V198 => D::Var(198, vec![]),
            Many300::V199 => D::Var(199, vec![]),
            Many300::V200 => D::Var(200, vec![]),
            Many300::V201 => D::Var(201, vec![]),
            Many300::V202 => D::Var(202, vec![]),
            Many300::V203 => D::Var(203, vec![]),
            Many300::V204 => D::Var(204, vec![]),
            Many300::V205 => D::Var(205, vec![]),
            Many300::V206 => D::Var(206, vec![]),
            Many300::V207 => D::Var(207, vec![]),
            Many300::V208 => D::Var(208, vec![]),
            Many300::V209 => D::Var(209, vec![]),
            Many300::V210 => D::Var(210, vec![]),
            Many300::V211 => D::Var(211, vec![]),
            Many300::V212 => D::Var(212, vec![]),
            Many300::V213 => D::Var(213, vec![]),
            Many300::V214 => D::Var(214, vec![]),
            Many300::V215 => D::Var(215, vec![]),
            Many300::V216 => D::Var(216, vec![]),
            Many300::V217 => D::Var(217, vec![]),
            Many300::V218 => D::Var(218, vec![]),
            Many300::V219 => D::Var(219, vec![]),
            Many300::V220 => D::Var(220, vec![]),
            Many300::V221 => D::Var(221, vec![]),
            Many300::V222 => D::Var(222, vec![]),
            Many300::V223 => D::Var(223, vec![]),
            Many300::V224 => D::Var(224, vec![]),
            Many300::V225 => D::Var(225, vec![]),
            Many300::V226 => D::Var(226, vec![]),
            Many300::V227 => D::Var(227, vec![]),
            Many300::V228 => D::Var(228, vec![]),
            Many300::V229 => D::Var(229, vec![]),
            Many300::V230 => D::Var(230, vec![]),
            Many300::V231 => D::Var(231, vec![]),
            Many300::V232 => D::Var(232, vec![]),
            Many300::V233 => D::Var(233, vec![]),
            Many300::V234 => D::Var(234, vec![]),
            Many300::V235 => D::Var(235, vec![]),
            Many300::V236 => D::Var(236, vec![]),
            Many300::V237 => D::Var(237, vec![]),
            Many300::V238 => D::Var(238, vec![]),
            Many300::V239 => D::Var(239, vec![]),
            Many300::V240 => D::Var(240, vec![]),
            Many300::V241 => D::Var(241, vec![]),
            Many300::V242 => D::Var(242, vec![]),
            Many300::V243 => D::Var(243, vec![]),
            Many300::V244 => D::Var(244, vec![]),
            Many300::V245 => D::Var(245, vec![]),
            Many300::V246 => D::Var(246, vec![]),
            Many300::V247 => D::Var(247, vec![]),
            Many300::V248 => D::Var(248, vec![]),
            Many300::V249 => D::Var(249, vec![]),
            Many300::V250 => D::Var(250, vec![]),
            Many300::V251 => D::Var(251, vec![]),
            Many300::V252 => D::Var(252, vec![]),
            Many300::V253 => D::Var(253, vec![]),
            Many300::V254 => D::Var(254, vec![]),
            Many300::V255 => D::Var(255, vec![]),
            Many300::V256 => D::Var(256, vec![]),
            Many300::V257 => D::Var(257, vec![]),
            Many300::V258 => D::Var(258, vec![]),
            Many300::V259 => D::Var(259, vec![]),
            Many300::V260 => D::Var(260, vec![]),
            Many300::V261 => D::Var(261, vec![]),
            Many300::V262 => D::Var(262, vec![]),
            Many300::V263 => D::Var(263, vec![]),
            Many300::V264 => D::Var(264, vec![]),
            Many300::V265 => D::Var(265, vec![]),
            Many300::V266 => D::Var(266, vec![]),
            Many300::V267 => D::Var(267, vec![]),
            Many300::V268 => D::Var(268, vec![]),
            Many300::V269 => D::Var(269, vec![]),
            Many300::V270 => D::Var(270, vec![]),
            Many300::V271 => D::Var(271, vec![]),
            Many300::V272 => D::Var(272, vec![]),
            Many300::V273 => D::Var(273, vec![]),
            Many300::V274 => D::Var(274, vec![]),
            Many300::V275 => D::Var(275, vec![]),
            Many300::V276 => D::Var(276, vec![]),
            Many300::V277 => D::Var(277, vec![]),
            Many300::V278 => D::Var(278, vec![]),
            Many300::V279 => D::Var(279, vec![]),
            Many300::V280 => D::Var(280, vec![]),
            Many300::V281 => D::Var(281, vec![]),
            Many300::V282 => D::Var(282, vec![]),
            Many300::V283 => D::Var(283, vec![]),
            Many300::V284 => D::Var(284, vec![]),
            Many300::V285 => D::Var(285, vec![]),
            Many300::V286 => D::Var(286, vec![]),
            Many300::V287 => D::Var(287, vec![]),
            Many300::V288 => D::Var(288, vec![]),
            Many300::V289 => D::Var(289, vec![]),
            Many300::V290 => D::Var(290, vec![]),
            Many300::V291 => D::Var(291, vec![]),
            Many300::V292 => D::Var(292, vec![]),
            Many300::V293 => D::Var(293, vec![]),
            Many300::V294 => D::Var(294, vec![]),
            Many300::V295 => D::Var(295, vec![]),
            Many300::V296 => D::Var(296, vec![]),
            Many300::V297 => D::Var(297, vec![]),
            Many300::V298 => D::Var(298, vec![]),
            Many300::V299 => D::Var(299, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Many300::V0,
            1 => Many300::V1,
            2 => Many300::V2,
            3 => Many300::V3,
            4 => Many300::V4,
            5 => Many300::V5,
            6 => Many300::V6,
            7 => Many300::V7,
            8 => Many300::V8,
            9 => Many300::V9,
            10 => Many300::V10,
            11 => Many300::V11,
            12 => Many300::V12,
            13 => Many300::V13,
            14 => Many300::V14,
            15 => Many300::V15,
            16 => Many300::V16,
            17 => Many300::V17,
            18 => Many300::V18,
            19 => Many300::V19,
            20 => Many300::V20,
            21 => Many300::V21,
            22 => Many300::V22,
            23 => Many300::V23,
            24 => Many300::V24,
            25 => Many300::V25,
            26 => Many300::V26,
            27 => Many300::V27,
            28 => Many300::V28,
            29 => Many300::V29,
            30 => Many300::V30,
            31 => Many300::V31,
            32 => Many300::V32,
            33 => Many300::V33,
            34 => Many300::V34,
            35 => Many300::V35,
            36 => Many300::V36,
            37 => Many300::V37,
            38 => Many300::V38,
            39 => Many300::V39,
            40 => Many300::V40,
            41 => Many300::V41,
            42 => Many300::V42,
            43 => Many300::V43,
            44 => Many300::V44,
            45 => Many300::V45,
            46 => Many300::V46,
            47 => Many300::V47,
            48 => Many300::V48,
            49 => Many300::V49,
            50 => Many300::V50,
            51 => Many300::V51,
            52 => Many300::V52,
            53 => Many300::V53,
            54 => Many300::V54,
            55 => Many300::V55,
            56 => Many300::V56,
            57 => Many300::V57,
            58 => Many300::V58,
            59 => Many300::V59,
            60 => Many300::V60,
            61 => Many300::V61,
            62 => Many300::V62,
            63 => Many300::V63,
            64 => Many300::V64,
            65 => Many300::V65,
            66 => Many300::V66,
            67 => Many300::V67,
            68 => Many300::V68,
            69 => Many300::V69,
            70 => Many300::V70,
            71 => Many300::V71,
            72 => Many300::V72,
            73 => Many300::V73,
            74 => Many300::V74,
            75 => Many300::V75,
            76 => Many300::V76,
            77 => Many300::V77,
            78 => Many300::V78,
            79 => Many300::V79,
            80 => Many300::V80,
            81 => Many300::V81,
            82 => Many300::V82,
            83 => Many300::V83,
            84 => Many300::V84,
            85 => Many300::V85,
            86 => Many300::V86,
            87 => Many300::V87,
            88 => Many300::V88,
            89 => Many300::V89,
            90 => Many300::V90,
            91 => Many300::V91,
            92 => Many300::V92,
            93 => Many300::V93,
            94 => Many300::V94,
            95 => Many300::V95,
            96 => Many300::V96,
            97 => Many300::V97,
            98 => Many300::V98,
            99 => Many300::V99,
            100 => Many300::V100,
            101 => Many300::V101,
            102 => Many300::V102,
            103 => Many300::V103,
            104 => Many300::V104,
            105 => Many300::V105,
            106 => Many300::V106,
            107 => Many300::V107,
            108 => Many300::V108,
            109 => Many300::V109,
            110 => Many300::V110,
            111 => Many300::V111,
            112 => Many300::V112,
            113 => Many300::V113,
            114 => Many300::V114,
            115 => Many300::V115,
            116 => Many300::V116,
            117 => Many300::V117,
            118 => Many300::V118,
            119 => Many300::V119,
            120 => Many300::V120,
            121 => Many300::V121,
            122 => Many300::V122,
            123 => Many300::V123,
            124 => Many300::V124,
            125 => Many300::V125,
            126 => Many300::V126,
            127 => Many300::V127,
            128 => Many300::V128,
            129 => Many300::V129,
            130 => Many300::V130,
            131 => Many300::V131,
            132 => Many300::V132,
            133 => Many300::V133,
            134 => Many300::V134,
            135 => Many300::V135,
            136 => Many300::V136,
            137 => Many300::V137,
            138 => Many300::V138,
            139 => Many300::V139,
            140 => Many300::V140,
            141 => Many300::V141,
            142 => Many300::V142,
            143 => Many300::V143,
            144 => Many300::V144,
            145 => Many300::V145,
            146 => Many300::V146,
            147 => Many300::V147,
            148 => Many300::V148,
            149 => Many300::V149,
            150 => Many300::V150,
            151 => Many300::V151,
            152 => Many300::V152,
            153 => Many300::V153,
            154 => Many300::V154,
            155 => Many300::V155,
            156 => Many300::V156,
            157 => Many300::V157,
            158 => Many300::V158,
            159 => Many300::V159,
            160 => Many300::V160,
            161 => Many300::V161,
            162 => Many300::V162,
            163 => Many300::V163,
            164 => Many300::V164,
            165 => Many300::V165,
            166 => Many300::V166,
            167 => Many300::V167,
            168 => Many300::V168,
            169 => Many300::V169,
            170 => Many300::V170,
            171 => Many300::V171,
            172 => Many300::V172,
            173 => Many300::V173,
            174 => Many300::V174,
            175 => Many300::V175,
            176 => Many300::V176,
            177 => Many300::V177,
            178 => Many300::V178,
            179 => Many300::V179,
            180 => Many300::V180,
            181 => Many300::V181,
            182 => Many300::V182,
            183 => Many300::V183,
            184 => Many300::V184,
            185 => Many300::V185,
            186 => Many300::V186,
            187 => Many300::V187,
            188 => Many300::V188,
            189 => Many300::V189,
            190 => Many300::V190,
            191 => Many300::V191,
            192 => Many300::V192,
            193 => Many300::V193,
            194 => Many300::V194,
            195 => Many300::V195,
            196 => Many300::V196,
            197 => Many300::V197,
            198 => Many300::V198,
            199 => Many300::V199,
            200 => Many300::V200,
            201 => Many300::V201,
            202 => Many300::V202,
            203 => Many300::V203,
            204 => Many300::V204,
            205 => Many300::V205,
            206 => Many300::V206,
            207 => Many300::V207,
            208 => Many300::V208,
            209 => Many300::V209,
            210 => Many300::V210,
            211 => Many300::V211,
            212 => Many300::V212,
            213 => Many300::V213,
            214 => Many300::V214,
            215 => Many300::V215,
            216 => Many300::V216,
            217 => Many300::V217,
            218 => Many300::V218,
            219 => Many300::V219,
            220 => Many300::V220,
            221 => Many300::V221,
            222 => Many300::V222,
            223 => Many300::V223,
            224 => Many300::V224,
            225 => Many300::V225,
            226 => Many300::V226,
            227 => Many300::V227,
            228 => Many300::V228,
            229 => Many300::V229,
            230 => Many300::V230,
            231 => Many300::V231,
            232 => Many300::V232,
            233 => Many300::V233,
            234 => Many300::V234,
            235 => Many300::V235,
            236 => Many300::V236,
            237 => Many300::V237,
            238 => Many300::V238,
            239 => Many300::V239,
            240 => Many300::V240,
            241 => Many300::V241,
            242 => Many300::V242,
            243 => Many300::V243,
            244 => Many300::V244,
            245 => Many300::V245,
            246 => Many300::V246,
            247 => Many300::V247,
            248 => Many300::V248,
            249 => Many300::V249,
            250 => Many300::V250,
            251 => Many300::V251,
            252 => Many300::V252,
            253 => Many300::V253,
            254 => Many300::V254,
            255 => Many300::V255,
            256 => Many300::V256,
            257 => Many300::V257,
            258 => Many300::V258,
            259 => Many300::V259,
            260 => Many300::V260,
            261 => Many300::V261,
            262 => Many300::V262,
            263 => Many300::V263,
            264 => Many300::V264,
            265 => Many300::V265,
            266 => Many300::V266,
            267 => Many300::V267,
            268 => Many300::V268,
            269 => Many300::V269,
            270 => Many300::V270,
            271 => Many300::V271,
            272 => Many300::V272,
            273 => Many300::V273,
            274 => Many300::V274,
            275 => Many300::V275,
            276 => Many300::V276,
            277 => Many300::V277,
            278 => Many300::V278,
            279 => Many300::V279,
            280 => Many300::V280,
            281 => Many300::V281,
            282 => Many300::V282,
            283 => Many300::V283,
            284 => Many300::V284,
            285 => Many300::V285,
            286 => Many300::V286,
            287 => Many300::V287,
            288 => Many300::V288,
            289 => Many300::V289,
            290 => Many300::V290,
            291 => Many300::V291,
            292 => Many300::V292,
            293 => Many300::V293,
            294 => Many300::V294,
            295 => Many300::V295,
            296 => Many300::V296,
            297 => Many300::V297,
            298 => Many300::V298,
            299 => Many300::V299,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[repr(u16)]
pub enum Many300D {
    V0 = 0,
    V1 = 1,
    V2 = 2,
    V3 = 3,
    V4 = 4,
    V5 = 5,
    V6 = 6,
    V7 = 7,
    V8 = 8,
    V9 = 9,
    V10 = 10,
    V11 = 11,
    V12 = 12,
    V13 = 13,
    V14 = 14,
    V15 = 15,
    V16 = 16,
    V17 = 17,
    V18 = 18,
    V19 = 19,
    V20 = 20,
    V21 = 21,
    V22 = 22,
    V23 = 23,
    V24 = 24,
    V25 = 25,
    V26 = 26,
    V27 = 27,
    V28 = 28,
    V29 = 29,
    V30 = 30,
    V31 = 31,
    V32 = 32,
    V33 = 33,
    V34 = 34,
    V35 = 35,
    V36 = 36,
    V37 = 37,
    V38 = 38,
    V39 = 39,
    V40 = 40,
    V41 = 41,
    V42 = 42,
    V43 = 43,
    V44 = 44,
    V45 = 45,
    V46 = 46,
    V47 = 47,
    V48 = 48,
    V49 = 49,
    V50 = 50,
    V51 = 51,
    V52 = 52,
    V53 = 53,
    V54 = 54,
    V55 = 55,
    V56 = 56,
    V57 = 57,
    V58 = 58,
    V59 = 59,
    V60 = 60,
    V61 = 61,
    V62 = 62,
    V63 = 63,
    V64 = 64,
    V65 = 65,
    V66 = 66,
    V67 = 67,
    V68 = 68,
    V69 = 69,
    V70 = 70,
    V71 = 71,
    V72 = 72,
    V73 = 73,
    V74 = 74,
    V75 = 75,
    V76 = 76,
    V77 = 77,
    V78 = 78,
    V79 = 79,
    V80 = 80,
    V81 = 81,
    V82 = 82,
    V83 = 83,
    V84 = 84,
    V85 = 85,
    V86 = 86,
    V87 = 87,
    V88 = 88,
    V89 = 89,
    V90 = 90,
    V91 = 91,
    V92 = 92,
    V93 = 93,
    V94 = 94,
    V95 = 95,
    V96 = 96,
    V97 = 97,
    V98 = 98,
    V99 = 99,
    V100 = 100,
    V101 = 101,
    V102 = 102,
    V103 = 103,
    V104 = 104,
    V105 = 105,
    V106 = 106,
    V107 = 107,
    V108 = 108,
    V109 = 109,
    V110 = 110,
    V111 = 111,
    V112 = 112,
    V113 = 113,
    V114 = 114,
    V115 = 115,
    V116 = 116,
    V117 = 117,
    V118 = 118,
    V119 = 119,
    V120 = 120,
    V121 = 121,
    V122 = 122,
    V123 = 123,
    V124 = 124,
    V125 = 125,
    V126 = 126,
    V127 = 127,
    V128 = 128,
    V129 = 129,
    V130 = 130,
    V131 = 131,
    V132 = 132,
    V133 = 133,
    V134 = 134,
    V135 = 135,
    V136 = 136,
    V137 = 137,
    V138 = 138,
    V139 = 139,
    V140 = 140,
    V141 = 141,
    V142 = 142,
    V143 = 143,
    V144 = 144,
    V145 = 145,
    V146 = 146,
    V147 = 147,
    V148 = 148,
    V149 = 149,
    V150 = 150,
    V151 = 151,
    V152 = 152,
    V153 = 153,
    V154 = 154,
    V155 = 155,
    V156 = 156,
    V157 = 157,
    V158 = 158,
    V159 = 159,
    V160 = 160,
    V161 = 161,
    V162 = 162,
    V163 = 163,
    V164 = 164,
    V165 = 165,
    V166 = 166,
    V167 = 167,
    V168 = 168,
    V169 = 169,
    V170 = 170,
    V171 = 171,
    V172 = 172,
    V173 = 173,
    V174 = 174,
    V175 = 175,
    V176 = 176,
    V177 = 177,
    V178 = 178,
    V179 = 179,
    V180 = 180,
    V181 = 181,
    V182 = 182,
    V183 = 183,
    V184 = 184,
    V185 = 185,
    V186 = 186,
    V187 = 187,
    V188 = 188,
    V189 = 189,
    V190 = 190,
    V191 = 191,
    V192 = 192,
    V193 = 193,
    V194 = 194,
    V195 = 195,
    V196 = 196,
    V197 = 197,
    V198 = 198,
    V199 = 199,
    V200 = 200,
    V201 = 201,
    V202 = 202,
    V203 = 203,
    V204 = 204,
    V205 = 205,
    V206 = 206,
    V207 = 207,
    V208 = 208,
    V209 = 209,
    V210 = 210,
    V211 = 211,
    V212 = 212,
    V213 = 213,
    V214 = 214,
    V215 = 215,
    V216 = 216,
    V217 = 217,
    V218 = 218,
    V219 = 219,
    V220 = 220,
    V221 = 221,
    V222 = 222,
    V223 = 223,
    V224 = 224,
    V225 = 225,
    V226 = 226,
    V227 = 227,
    V228 = 228,
    V229 = 229,
    V230 = 230,
    V231 = 231,
    V232 = 232,
    V233 = 233,
    V234 = 234,
    V235 = 235,
    V236 = 236,
    V237 = 237,
    V238 = 238,
    V239 = 239,
    V240 = 240,
    V241 = 241,
    V242 = 242,
    V243 = 243,
    V244 = 244,
    V245 = 245,
    V246 = 246,
    V247 = 247,
    V248 = 248,
    V249 = 249,
    V250 = 250,
    V251 = 251,
    V252 = 252,
    V253 = 253,
    V254 = 254,
    V255 = 255,
    V256 = 256,
    V257 = 257,
    V258 = 258,
    V259 = 259,
    V260 = 260,
    V261 = 261,
    V262 = 262,
    V263 = 263,
    V264 = 264,
    V265 = 265,
    V266 = 266,
    V267 = 267,
    V268 = 268,
    V269 = 269,
    V270 = 270,
    V271 = 271,
    V272 = 272,
    V273 = 273,
    V274 = 274,
    V275 = 275,
    V276 = 276,
    V277 = 277,
    V278 = 278,
    V279 = 279,
    V280 = 280,
    V281 = 281,
    V282 = 282,
    V283 = 283,
    V284 = 284,
    V285 = 285,
    V286 = 286,
    V287 = 287,
    V288 = 288,
    V289 = 289,
    V290 = 290,
    V291 = 291,
    V292 = 292,
    V293 = 293,
    V294 = 294,
    V295 = 295,
    V296 = 296,
    V297 = 297,
    V298 = 298,
    V299 = 299,
}
impl Subj for Many300D {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Many300D".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("V0"), discr: Some(int(0)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V1"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V2"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V3"), discr: Some(int(3)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V4"), discr: Some(int(4)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V5"), discr: Some(int(5)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V6"), discr: Some(int(6)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V7"), discr: Some(int(7)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V8"), discr: Some(int(8)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V9"), discr: Some(int(9)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V10"), discr: Some(int(10)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V11"), discr: Some(int(11)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V12"), discr: Some(int(12)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V13"), discr: Some(int(13)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V14"), discr: Some(int(14)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V15"), discr: Some(int(15)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V16"), discr: Some(int(16)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V17"), discr: Some(int(17)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V18"), discr: Some(int(18)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V19"), discr: Some(int(19)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V20"), discr: Some(int(20)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V21"), discr: Some(int(21)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V22"), discr: Some(int(22)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V23"), discr: Some(int(23)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V24"), discr: Some(int(24)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V25"), discr: Some(int(25)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V26"), discr: Some(int(26)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V27"), discr: Some(int(27)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V28"), discr: Some(int(28)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V29"), discr: Some(int(29)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V30"), discr: Some(int(30)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V31"), discr: Some(int(31)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V32"), discr: Some(int(32)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V33"), discr: Some(int(33)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V34"), discr: Some(int(34)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V35"), discr: Some(int(35)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V36"), discr: Some(int(36)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V37"), discr: Some(int(37)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V38"), discr: Some(int(38)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V39"), discr: Some(int(39)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V40"), discr: Some(int(40)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V41"), discr: Some(int(41)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V42"), discr: Some(int(42)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V43"), discr: Some(int(43)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V44"), discr: Some(int(44)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V45"), discr: Some(int(45)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V46"), discr: Some(int(46)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V47"), discr: Some(int(47)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V48"), discr: Some(int(48)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V49"), discr: Some(int(49)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V50"), discr: Some(int(50)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V51"), discr: Some(int(51)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V52"), discr: Some(int(52)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V53"), discr: Some(int(53)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V54"), discr: Some(int(54)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V55"), discr: Some(int(55)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V56"), discr: Some(int(56)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V57"), discr: Some(int(57)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V58"), discr: Some(int(58)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V59"), discr: Some(int(59)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V60"), discr: Some(int(60)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V61"), discr: Some(int(61)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V62"), discr: Some(int(62)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V63"), discr: Some(int(63)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V64"), discr: Some(int(64)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V65"), discr: Some(int(65)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V66"), discr: Some(int(66)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V67"), discr: Some(int(67)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V68"), discr: Some(int(68)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V69"), discr: Some(int(69)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V70"), discr: Some(int(70)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V71"), discr: Some(int(71)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V72"), discr: Some(int(72)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V73"), discr: Some(int(73)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V74"), discr: Some(int(74)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V75"), discr: Some(int(75)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V76"), discr: Some(int(76)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V77"), discr: Some(int(77)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V78"), discr: Some(int(78)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V79"), discr: Some(int(79)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V80"), discr: Some(int(80)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V81"), discr: Some(int(81)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V82"), discr: Some(int(82)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V83"), discr: Some(int(83)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V84"), discr: Some(int(84)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V85"), discr: Some(int(85)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V86"), discr: Some(int(86)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V87"), discr: Some(int(87)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V88"), discr: Some(int(88)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V89"), discr: Some(int(89)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V90"), discr: Some(int(90)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V91"), discr: Some(int(91)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V92"), discr: Some(int(92)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V93"), discr: Some(int(93)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V94"), discr: Some(int(94)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V95"), discr: Some(int(95)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V96"), discr: Some(int(96)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V97"), discr: Some(int(97)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V98"), discr: Some(int(98)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V99"), discr: Some(int(99)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V100"), discr: Some(int(100)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V101"), discr: Some(int(101)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V102"), discr: Some(int(102)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V103"), discr: Some(int(103)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V104"), discr: Some(int(104)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V105"), discr: Some(int(105)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V106"), discr: Some(int(106)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V107"), discr: Some(int(107)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V108"), discr: Some(int(108)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V109"), discr: Some(int(109)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V110"), discr: Some(int(110)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V111"), discr: Some(int(111)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V112"), discr: Some(int(112)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V113"), discr: Some(int(113)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V114"), discr: Some(int(114)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V115"), discr: Some(int(115)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V116"), discr: Some(int(116)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V117"), discr: Some(int(117)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V118"), discr: Some(int(118)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V119"), discr: Some(int(119)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V120"), discr: Some(int(120)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V121"), discr: Some(int(121)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V122"), discr: Some(int(122)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V123"), discr: Some(int(123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V124"), discr: Some(int(124)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V125"), discr: Some(int(125)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V126"), discr: Some(int(126)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V127"), discr: Some(int(127)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V128"), discr: Some(int(128)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V129"), discr: Some(int(129)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V130"), discr: Some(int(130)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V131"), discr: Some(int(131)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V132"), discr: Some(int(132)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V133"), discr: Some(int(133)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V134"), discr: Some(int(134)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V135"), discr: Some(int(135)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V136"), discr: Some(int(136)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V137"), discr: Some(int(137)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V138"), discr: Some(int(138)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V139"), discr: Some(int(139)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V140"), discr: Some(int(140)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V141"), discr: Some(int(141)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V142"), discr: Some(int(142)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V143"), discr: Some(int(143)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V144"), discr: Some(int(144)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V145"), discr: Some(int(145)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V146"), discr: Some(int(146)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V147"), discr: Some(int(147)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V148"), discr: Some(int(148)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V149"), discr: Some(int(149)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V150"), discr: Some(int(150)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V151"), discr: Some(int(151)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V152"), discr: Some(int(152)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V153"), discr: Some(int(153)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V154"), discr: Some(int(154)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V155"), discr: Some(int(155)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V156"), discr: Some(int(156)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V157"), discr: Some(int(157)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V158"), discr: Some(int(158)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V159"), discr: Some(int(159)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V160"), discr: Some(int(160)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V161"), discr: Some(int(161)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V162"), discr: Some(int(162)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V163"), discr: Some(int(163)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V164"), discr: Some(int(164)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V165"), discr: Some(int(165)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V166"), discr: Some(int(166)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V167"), discr: Some(int(167)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V168"), discr: Some(int(168)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V169"), discr: Some(int(169)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V170"), discr: Some(int(170)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V171"), discr: Some(int(171)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V172"), discr: Some(int(172)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V173"), discr: Some(int(173)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V174"), discr: Some(int(174)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V175"), discr: Some(int(175)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V176"), discr: Some(int(176)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V177"), discr: Some(int(177)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V178"), discr: Some(int(178)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V179"), discr: Some(int(179)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V180"), discr: Some(int(180)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V181"), discr: Some(int(181)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V182"), discr: Some(int(182)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V183"), discr: Some(int(183)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V184"), discr: Some(int(184)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V185"), discr: Some(int(185)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V186"), discr: Some(int(186)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V187"), discr: Some(int(187)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V188"), discr: Some(int(188)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V189"), discr: Some(int(189)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V190"), discr: Some(int(190)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V191"), discr: Some(int(191)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V192"), discr: Some(int(192)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V193"), discr: Some(int(193)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V194"), discr: Some(int(194)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V195"), discr: Some(int(195)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V196"), discr: Some(int(196)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V197"), discr: Some(int(197)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V198"), discr: Some(int(198)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V199"), discr: Some(int(199)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V200"), discr: Some(int(200)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V201"), discr: Some(int(201)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V202"), discr: Some(int(202)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V203"), discr: Some(int(203)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V204"), discr: Some(int(204)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V205"), discr: Some(int(205)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V206"), discr: Some(int(206)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V207"), discr: Some(int(207)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V208"), discr: Some(int(208)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V209"), discr: Some(int(209)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V210"), discr: Some(int(210)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V211"), discr: Some(int(211)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V212"), discr: Some(int(212)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V213"), discr: Some(int(213)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V214"), discr: Some(int(214)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V215"), discr: Some(int(215)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V216"), discr: Some(int(216)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V217"), discr: Some(int(217)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V218"), discr: Some(int(218)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V219"), discr: Some(int(219)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V220"), discr: Some(int(220)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V221"), discr: Some(int(221)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V222"), discr: Some(int(222)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V223"), discr: Some(int(223)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V224"), discr: Some(int(224)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V225"), discr: Some(int(225)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V226"), discr: Some(int(226)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V227"), discr: Some(int(227)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V228"), discr: Some(int(228)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V229"), discr: Some(int(229)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V230"), discr: Some(int(230)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V231"), discr: Some(int(231)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V232"), discr: Some(int(232)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V233"), discr: Some(int(233)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V234"), discr: Some(int(234)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V235"), discr: Some(int(235)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V236"), discr: Some(int(236)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V237"), discr: Some(int(237)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V238"), discr: Some(int(238)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V239"), discr: Some(int(239)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V240"), discr: Some(int(240)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V241"), discr: Some(int(241)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V242"), discr: Some(int(242)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V243"), discr: Some(int(243)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V244"), discr: Some(int(244)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V245"), discr: Some(int(245)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V246"), discr: Some(int(246)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V247"), discr: Some(int(247)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V248"), discr: Some(int(248)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V249"), discr: Some(int(249)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V250"), discr: Some(int(250)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V251"), discr: Some(int(251)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V252"), discr: Some(int(252)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V253"), discr: Some(int(253)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V254"), discr: Some(int(254)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V255"), discr: Some(int(255)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V256"), discr: Some(int(256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V257"), discr: Some(int(257)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V258"), discr: Some(int(258)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V259"), discr: Some(int(259)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V260"), discr: Some(int(260)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V261"), discr: Some(int(261)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V262"), discr: Some(int(262)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V263"), discr: Some(int(263)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V264"), discr: Some(int(264)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V265"), discr: Some(int(265)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V266"), discr: Some(int(266)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V267"), discr: Some(int(267)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V268"), discr: Some(int(268)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V269"), discr: Some(int(269)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V270"), discr: Some(int(270)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V271"), discr: Some(int(271)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V272"), discr: Some(int(272)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V273"), discr: Some(int(273)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V274"), discr: Some(int(274)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V275"), discr: Some(int(275)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V276"), discr: Some(int(276)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V277"), discr: Some(int(277)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V278"), discr: Some(int(278)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V279"), discr: Some(int(279)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V280"), discr: Some(int(280)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V281"), discr: Some(int(281)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V282"), discr: Some(int(282)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V283"), discr: Some(int(283)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V284"), discr: Some(int(284)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V285"), discr: Some(int(285)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V286"), discr: Some(int(286)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V287"), discr: Some(int(287)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V288"), discr: Some(int(288)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V289"), discr: Some(int(289)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V290"), discr: Some(int(290)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V291"), discr: Some(int(291)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V292"), discr: Some(int(292)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V293"), discr: Some(int(293)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V294"), discr: Some(int(294)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V295"), discr: Some(int(295)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V296"), discr: Some(int(296)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V297"), discr: Some(int(297)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V298"), discr: Some(int(298)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V299"), discr: Some(int(299)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Many300D::V0 => D::Var(0, vec![]),
            Many300D::V1 => D::Var(1, vec![]),
            Many300D::V2 => D::Var(2, vec![]),
            Many300D::V3 => D::Var(3, vec![]),
            Many300D::V4 => D::Var(4, vec![]),
            Many300D::V5 => D::Var(5, vec![]),
            Many300D::V6 => D::Var(6, vec![]),
            Many300D::V7 => D::Var(7, vec![]),
            Many300D::V8 => D::Var(8, vec![]),
            Many300D::V9 => D::Var(9, vec![]),
            Many300D::V10 => D::Var(10, vec![]),
            Many300D::V11 => D::Var(11, vec![]),
            Many300D::V12 => D::Var(12, vec![]),
            Many300D::V13 => D::Var(13, vec![]),
            Many300D::V14 => D::Var(14, vec![]),
            Many300D::V15 => D::Var(15, vec![]),
            Many300D::V16 => D::Var(16, vec![]),
            Many300D::V17 => D::Var(17, vec![]),
            Many300D::V18 => D::Var(18, vec![]),
            Many300D::V19 => D::Var(19, vec![]),
            Many300D::V20 => D::Var(20, vec![]),
            Many300D::V21 => D::Var(21, vec![]),
            Many300D::V22 => D::Var(22, vec![]),
            Many300D::V23 => D::Var(23, vec![]),
            Many300D::V24 => D::Var(24, vec![]),
            Many300D::V25 => D::Var(25, vec![]),
            Many300D::V26 => D::Var(26, vec![]),
            Many300D::V27 => D::Var(27, vec![]),
            Many300D::V28 => D::Var(28, vec![]),
            Many300D::V29 => D::Var(29, vec![]),
            Many300D::V30 => D::Var(30, vec![]),
            Many300D::V31 => D::Var(31, vec![]),
            Many300D::V32 => D::Var(32, vec![]),
            Many300D::V33 => D::Var(33, vec![]),
            Many300D::V34 => D::Var(34, vec![]),
            Many300D::V35 => D::Var(35, vec![]),
            Many300D::V36 => D::Var(36, vec![]),
            Many300D::V37 => D::Var(37, vec![]),
            Many300D::V38 => D::Var(38, vec![]),
            Many300D::V39 => D::Var(39, vec![]),
            Many300D::V40 => D::Var(40, vec![]),
            Many300D::V41 => D::Var(41, vec![]),
            Many300D::V42 => D::Var(42, vec![]),
            Many300D::V43 => D::Var(43, vec![]),
            Many300D::V44 => D::Var(44, vec![]),
            Many300D::V45 => D::Var(45, vec![]),
            Many300D::V46 => D::Var(46, vec![]),
            Many300D::V47 => D::Var(47, vec![]),
            Many300D::V48 => D::Var(48, vec![]),
            Many300D::V49 => D::Var(49, vec![]),
            Many300D::V50 => D::Var(50, vec![]),
            Many300D::V51 => D::Var(51, vec![]),
            Many300D::V52 => D::Var(52, vec![]),
            Many300D::V53 => D::Var(53, vec![]),
            Many300D::V54 => D::Var(54, vec![]),
            Many300D::V55 => D::Var(55, vec![]),
            Many300D::V56 => D::Var(56, vec![]),
            Many300D::V57 => D::Var(57, vec![]),
            Many300D::V58 => D::Var(58, vec![]),
            Many300D::V59 => D::Var(59, vec![]),
            Many300D::V60 => D::Var(60, vec![]),
            Many300D::V61 => D::Var(61, vec![]),
            Many300D::V62 => D::Var(62, vec![]),
            Many300D::V63 => D::Var(63, vec![]),
            Many300D::V64 => D::Var(64, vec![]),
            Many300D::V65 => D::Var(65, vec![]),
            Many300D::V66 => D::Var(66, vec![]),
            Many300D::V67 => D::Var(67, vec![]),
            Many300D::V68 => D::Var(68, vec![]),
            Many300D::V69 => D::Var(69, vec![]),
            Many300D::V70 => D::Var(70, vec![]),
            Many300D::V71 => D::Var(71, vec![]),
            Many300D::V72 => D::Var(72, vec![]),
            Many300D::V73 => D::Var(73, vec![]),
            Many300D::V74 => D::Var(74, vec![]),
            Many300D::V75 => D::Var(75, vec![]),
            Many300D::V76 => D::Var(76, vec![]),
            Many300D::V77 => D::Var(77, vec![]),
            Many300D::V78 => D::Var(78, vec![]),
            Many300D::V79 => D::Var(79, vec![]),
            Many300D::V80 => D::Var(80, vec![]),
            Many300D::V81 => D::Var(81, vec![]),
            Many300D::V82 => D::Var(82, vec![]),
            Many300D::V83 => D::Var(83, vec![]),
            Many300D::V84 => D::Var(84, vec![]),
            Many300D::V85 => D::Var(85, vec![]),
            Many300D::V86 => D::Var(86, vec![]),
            Many300D::V87 => D::Var(87, vec![]),
            Many300D::V88 => D::Var(88, vec![]),
            Many300D::V89 => D::Var(89, vec![]),
            Many300D::V90 => D::Var(90, vec![]),
            Many300D::V91 => D::Var(91, vec![]),
            Many300D::V92 => D::Var(92, vec![]),
            Many300D::V93 => D::Var(93, vec![]),
            Many300D::V94 => D::Var(94, vec![]),
            Many300D::V95 => D::Var(95, vec![]),
            Many300D::V96 => D::Var(96, vec![]),
            Many300D::V97 => D::Var(97, vec![]),
            Many300D::V98 => D::Var(98, vec![]),
            Many300D::V99 => D::Var(99, vec![]),
            Many300D::V100 => D::Var(100, vec![]),
            Many300D::V101 => D::Var(101, vec![]),
            Many300D::V102 => D::Var(102, vec![]),
            Many300D::V103 => D::Var(103, vec![]),
            Many300D::V104 => D::Var(104, vec![]),
            Many300D::V105 => D::Var(105, vec![]),
            Many300D::V106 => D::Var(106, vec![]),
            Many300D::V107 => D::Var(107, vec![]),
            Many300D::V108 => D::Var(108, vec![]),
            Many300D::V109 => D::Var(109, vec![]),
            Many300D::V110 => D::Var(110, vec![]),
            Many300D::V111 => D::Var(111, vec![]),
            Many300D::V112 => D::Var(112, vec![]),
            Many300D::V113 => D::Var(113, vec![]),
            Many300D::V114 => D::Var(114, vec![]),
            Many300D::V115 => D::Var(115, vec![]),
            Many300D::V116 => D::Var(116, vec![]),
            Many300D::V117 => D::Var(117, vec![]),
            Many300D::V118 => D::Var(118, vec![]),
            Many300D::V119 => D::Var(119, vec![]),
            Many300D::V120 => D::Var(120, vec![]),
            Many300D::V121 => D::Var(121, vec![]),
            Many300D::V122 => D::Var(122, vec![]),
            Many300D::V123 => D::Var(123, vec![]),
            Many300D::V124 => D::Var(124, vec![]),
            Many300D::V125 => D::Var(125, vec![]),
            Many300D::V126 => D::Var(126, vec![]),
            Many300D::V127 => D::Var(127, vec![]),
            Many300D::V128 => D::Var(128, vec![]),
            Many300D::V129 => D::Var(129, vec![]),
            Many300D::V130 => D::Var(130, vec![]),
            Many300D::V131 => D::Var(131, vec![]),
            Many300D::V132 => D::Var(132, vec![]),
            Many300D::V133 => D::Var(133, vec![]),
            Many300D::V134 => D::Var(134, vec![]),
            Many300D::V135 => D::Var(135, vec![]),
            Many300D::V136 => D::Var(136, vec![]),
            Many300D::V137 => D::Var(137, vec![]),
            Many300D::V138 => D::Var(138, vec![]),
            Many300D::V139 => D::Var(139, vec![]),
            Many300D::V140 => D::Var(140, vec![]),
            Many300D::V141 => D::Var(141, vec![]),
            Many300D::V142 => D::Var(142, vec![]),
            Many300D::V143 => D::Var(143, vec![]),
            Many300D::V144 => D::Var(144, vec![]),
            Many300D::V145 => D::Var(145, vec![]),
            Many300D::V146 => D::Var(146, vec![]),
            Many300D::V147 => D::Var(147, vec![]),
            Many300D::V148 => D::Var(148, vec![]),
            Many300D::V149 => D::Var(149, vec![]),
            Many300D::V150 => D::Var(150, vec![]),
            Many300D::V151 => D::Var(151, vec![]),
            Many300D::V152 => D::Var(152, vec![]),
            Many300D::V153 => D::Var(153, vec![]),
            Many300D::V154 => D::Var(154, vec![]),
            Many300D::V155 => D::Var(155, vec![]),
            Many300D::V156 => D::Var(156, vec![]),
            Many300D::V157 => D::Var(157, vec![]),
            Many300D::V158 => D::Var(158, vec![]),
            Many300D::V159 => D::Var(159, vec![]),
            Many300D::V160 => D::Var(160, vec![]),
            Many300D::V161 => D::Var(161, vec![]),
            Many300D::V162 => D::Var(162, vec![]),
            Many300D::V163 => D::Var(163, vec![]),
            Many300D::V164 => D::Var(164, vec![]),
            Many300D::V165 => D::Var(165, vec![]),
            Many300D::V166 => D::Var(166, vec![]),
            Many300D::V167 => D::Var(167, vec![]),
            Many300D::V168 => D::Var(168, vec![]),
            Many300D::V169 => D::Var(169, vec![]),
            Many300D::V170 => D::Var(170, vec![]),
            Many300D::V171 => D::Var(171, vec![]),
            Many300D::V172 => D::Var(172, vec![]),
            Many300D::V173 => D::Var(173, vec![]),
            Many300D::V174 => D::Var(174, vec![]),
            Many300D::V175 => D::Var(175, vec![]),
            Many300D::V176 => D::Var(176, vec![]),
            Many300D::V177 => D::Var(177, vec![]),
            Many300D::V178 => D::Var(178, vec![]),
            Many300D::V179 => D::Var(179, vec![]),
            Many300D::V180 => D::Var(180, vec![]),
            Many300D::V181 => D::Var(181, vec![]),
            Many300D::V182 => D::Var(182, vec![]),
            Many300D::V183 => D::Var(183, vec![]),
            Many300D::V184 => D::Var(184, vec![]),
            Many300D::V185 => D::Var(185, vec![]),
            Many300D::V186 => D::Var(186, vec![]),
            Many300D::V187 => D::Var(187, vec![]),
            Many300D::V188 => D::Var(188, vec![]),
            Many300D::V189 => D::Var(189, vec![]),
            Many300D::V190 => D::Var(190, vec![]),
            Many300D::V191 => D::Var(191, vec![]),
            Many300D::V192 => D::Var(192, vec![]),
            Many300D::V193 => D::Var(193, vec![]),
            Many300D::V194 => D::Var(194, vec![]),
            Many300D::V195 => D::Var(195, vec![]),
            Many300D::V196 => D::Var(196, vec![]),
            Many300D::V197 => D::Var(197, vec![]),
            Many300D::V198 => D::Var(198, vec![]),
            Many300D::V199 => D::Var(199, vec![]),
            Many300D::V200 => D::Var(200, vec![]),
            Many300D::V201 => D::Var(201, vec![]),
            Many300D::V202 => D::Var(202, vec![]),
            Many300D::V203 => D::Var(203, vec![]),
            Many300D::V204 => D::Var(204, vec![]),
            Many300D::V205 => D::Var(205, vec![]),
            Many300D::V206 => D::Var(206, vec![]),
            Many300D::V207 => D::Var(207, vec![]),
            Many300D::V208 => D::Var(208, vec![]),
            Many300D::V209 => D::Var(209, vec![]),
            Many300D::V210 => D::Var(210, vec![]),
            Many300D::V211 => D::Var(211, vec![]),
            Many300D::V212 => D::Var(212, vec![]),
            Many300D::V213 => D::Var(213, vec![]),
            Many300D::V214 => D::Var(214, vec![]),
            Many300D::V215 => D::Var(215, vec![]),
            Many300D::V216 => D::Var(216, vec![]),
            Many300D::V217 => D::Var(217, vec![]),
            Many300D::V218 => D::Var(218, vec![]),
            Many300D::V219 => D::Var(219, vec![]),
            Many300D::V220 => D::Var(220, vec![]),
            Many300D::V221 => D::Var(221, vec![]),
            Many300D::V222 => D::Var(222, vec![]),
            Many300D::V223 => D::Var(223, vec![]),
            Many300D::V224 => D::Var(224, vec![]),
            Many300D::V225 => D::Var(225, vec![]),
            Many300D::V226 => D::Var(226, vec![]),
            Many300D::V227 => D::Var(227, vec![]),
            Many300D::V228 => D::Var(228, vec![]),
            Many300D::V229 => D::Var(229, vec![]),
            Many300D::V230 => D::Var(230, vec![]),
            Many300D::V231 => D::Var(231, vec![]),
            Many300D::V232 => D::Var(232, vec![]),
            Many300D::V233 => D::Var(233, vec![]),
            Many300D::V234 => D::Var(234, vec![]),
            Many300D::V235 => D::Var(235, vec![]),
            Many300D::V236 => D::Var(236, vec![]),
            Many300D::V237 => D::Var(237, vec![]),
            Many300D::V238 => D::Var(238, vec![]),
            Many300D::V239 => D::Var(239, vec![]),
            Many300D::V240 => D::Var(240, vec![]),
            Many300D::V241 => D::Var(241, vec![]),
            Many300D::V242 => D::Var(242, vec![]),
            Many300D::V243 => D::Var(243, vec![]),
            Many300D::V244 => D::Var(244, vec![]),
            Many300D::V245 => D::Var(245, vec![]),
            Many300D::V246 => D::Var(246, vec![]),
            Many300D::V247 => D::Var(247, vec![]),
            Many300D::V248 => D::Var(248, vec![]),
            Many300D::V249 => D::Var(249, vec![]),
            Many300D::V250 => D::Var(250, vec![]),
            Many300D::V251 => D::Var(251, vec![]),
            Many300D::V252 => D::Var(252, vec![]),
            Many300D::V253 => D::Var(253, vec![]),
            Many300D::V254 => D::Var(254, vec![]),
            Many300D::V255 => D::Var(255, vec![]),
            Many300D::V256 => D::Var(256, vec![]),
            Many300D::V257 => D::Var(257, vec![]),
            Many300D::V258 => D::Var(258, vec![]),
            Many300D::V259 => D::Var(259, vec![]),
            Many300D::V260 => D::Var(260, vec![]),
            Many300D::V261 => D::Var(261, vec![]),
            Many300D::V262 => D::Var(262, vec![]),
            Many300D::V263 => D::Var(263, vec![]),
            Many300D::V264 => D::Var(264, vec![]),
            Many300D::V265 => D::Var(265, vec![]),
            Many300D::V266 => D::Var(266, vec![]),
            Many300D::V267 => D::Var(267, vec![]),
            Many300D::V268 => D::Var(268, vec![]),
            Many300D::V269 => D::Var(269, vec![]),
            Many300D::V270 => D::Var(270, vec![]),
            Many300D::V271 => D::Var(271, vec![]),
            Many300D::V272 => D::Var(272, vec![]),
            Many300D::V273 => D::Var(273, vec![]),
            Many300D::V274 => D::Var(274, vec![]),
            Many300D::V275 => D::Var(275, vec![]),
            Many300D::V276 => D::Var(276, vec![]),
            Many300D::V277 => D::Var(277, vec![]),
            Many300D::V278 => D::Var(278, vec![]),
            Many300D::V279 => D::Var(279, vec![]),
            Many300D::V280 => D::Var(280, vec![]),
            Many300D::V281 => D::Var(281, vec![]),
            Many300D::V282 => D::Var(282, vec![]),
            Many300D::V283 => D::Var(283, vec![]),
            Many300D::V284 => D::Var(284, vec![]),
            Many300D::V285 => D::Var(285, vec![]),
            Many300D::V286 => D::Var(286, vec![]),
            Many300D::V287 => D::Var(287, vec![]),
            Many300D::V288 => D::Var(288, vec![]),
            Many300D::V289 => D::Var(289, vec![]),
            Many300D::V290 => D::Var(290, vec![]),
            Many300D::V291 => D::Var(291, vec![]),
            Many300D::V292 => D::Var(292, vec![]),
            Many300D::V293 => D::Var(293, vec![]),
            Many300D::V294 => D::Var(294, vec![]),
            Many300D::V295 => D::Var(295, vec![]),
            Many300D::V296 => D::Var(296, vec![]),
            Many300D::V297 => D::Var(297, vec![]),
            Many300D::V298 => D::Var(298, vec![]),
            Many300D::V299 => D::Var(299, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Many300D::V0,
            1 => Many300D::V1,
            2 => Many300D::V2,
            3 => Many300D::V3,
            4 => Many300D::V4,
            5 => Many300D::V5,
            6 => Many300D::V6,
            7 => Many300D::V7,
            8 => Many300D::V8,
            9 => Many300D::V9,
            10 => Many300D::V10,
            11 => Many300D::V11,
            12 => Many300D::V12,
            13 => Many300D::V13,
            14 => Many300D::V14,
            15 => Many300D::V15,
            16 => Many300D::V16,
            17 => Many300D::V17,
            18 => Many300D::V18,
            19 => Many300D::V19,
            20 => Many300D::V20,
            21 => Many300D::V21,
            22 => Many300D::V22,
            23 => Many300D::V23,
            24 => Many300D::V24,
            25 => Many300D::V25,
            26 => Many300D::V26,
            27 => Many300D::V27,
            28 => Many300D::V28,
            29 => Many300D::V29,
            30 => Many300D::V30,
            31 => Many300D::V31,
            32 => Many300D::V32,
            33 => Many300D::V33,
            34 => Many300D::V34,
            35 => Many300D::V35,
            36 => Many300D::V36,
            37 => Many300D::V37,
            38 => Many300D::V38,
            39 => Many300D::V39,
            40 => Many300D::V40,
            41 => Many300D::V41,
            42 => Many300D::V42,
            43 => Many300D::V43,
            44 => Many300D::V44,
            45 => Many300D::V45,
            46 => Many300D::V46,
            47 => Many300D::V47,
            48 => Many300D::V48,
            49 => Many300D::V49,
            50 => Many300D::V50,
            51 => Many300D::V51,
            52 => Many300D::V52,
            53 => Many300D::V53,
            54 => Many300D::V54,
            55 => Many300D::V55,
            56 => Many300D::V56,
            57 => Many300D::V57,
            58 => Many300D::V58,
            59 => Many300D::V59,
            60 => Many300D::V60,
            61 => Many300D::V61,
            62 => Many300D::V62,
            63 => Many300D::V63,
            64 => Many300D::V64,
            65 => Many300D::V65,
            66 => Many300D::V66,
            67 => Many300D::V67,
            68 => Many300D::V68,
            69 => Many300D::V69,
            70 => Many300D::V70,
            71 => Many300D::V71,
            72 => Many300D::V72,
            73 => Many300D::V73,
            74 => Many300D::V74,
            75 => Many300D::V75,
            76 => Many300D::V76,
            77 => Many300D::V77,
            78 => Many300D::V78,
            79 => Many300D::V79,
            80 => Many300D::V80,
            81 => Many300D::V81,
            82 => Many300D::V82,
            83 => Many300D::V83,
            84 => Many300D::V84,
            85 => Many300D::V85,
            86 => Many300D::V86,
            87 => Many300D::V87,
            88 => Many300D::V88,
            89 => Many300D::V89,
            90 => Many300D::V90,
            91 => Many300D::V91,
            92 => Many300D::V92,
            93 => Many300D::V93,
            94 => Many300D::V94,
            95 => Many300D::V95,
            96 => Many300D::V96,
            97 => Many300D::V97,
            98 => Many300D::V98,
            99 => Many300D::V99,
            100 => Many300D::V100,
            101 => Many300D::V101,
            102 => Many300D::V102,
            103 => Many300D::V103,
            104 => Many300D::V104,
            105 => Many300D::V105,
            106 => Many300D::V106,
            107 => Many300D::V107,
            108 => Many300D::V108,
            109 => Many300D::V109,
            110 => Many300D::V110,
            111 => Many300D::V111,
            112 => Many300D::V112,
            113 => Many300D::V113,
            114 => Many300D::V114,
            115 => Many300D::V115,
            116 => Many300D::V116,
            117 => Many300D::V117,
            118 => Many300D::V118,
            119 => Many300D::V119,
            120 => Many300D::V120,
            121 => Many300D::V121,
            122 => Many300D::V122,
            123 => Many300D::V123,
            124 => Many300D::V124,
            125 => Many300D::V125,
            126 => Many300D::V126,
            127 => Many300D::V127,
            128 => Many300D::V128,
            129 => Many300D::V129,
            130 => Many300D::V130,
            131 => Many300D::V131,
            132 => Many300D::V132,
            133 => Many300D::V133,
            134 => Many300D::V134,
            135 => Many300D::V135,
            136 => Many300D::V136,
            137 => Many300D::V137,
            138 => Many300D::V138,
            139 => Many300D::V139,
            140 => Many300D::V140,
            141 => Many300D::V141,
            142 => Many300D::V142,
            143 => Many300D::V143,
            144 => Many300D::V144,
            145 => Many300D::V145,
            146 => Many300D::V146,
            147 => Many300D::V147,
            148 => Many300D::V148,
            149 => Many300D::V149,
            150 => Many300D::V150,
            151 => Many300D::V151,
            152 => Many300D::V152,
            153 => Many300D::V153,
            154 => Many300D::V154,
            155 => Many300D::V155,
            156 => Many300D::V156,
            157 => Many300D::V157,
            158 => Many300D::V158,
            159 => Many300D::V159,
            160 => Many300D::V160,
            161 => Many300D::V161,
            162 => Many300D::V162,
            163 => Many300D::V163,
            164 => Many300D::V164,
            165 => Many300D::V165,
            166 => Many300D::V166,
            167 => Many300D::V167,
            168 => Many300D::V168,
            169 => Many300D::V169,
            170 => Many300D::V170,
            171 => Many300D::V171,
            172 => Many300D::V172,
            173 => Many300D::V173,
            174 => Many300D::V174,
            175 => Many300D::V175,
            176 => Many300D::V176,
            177 => Many300D::V177,
            178 => Many300D::V178,
            179 => Many300D::V179,
            180 => Many300D::V180,
            181 => Many300D::V181,
            182 => Many300D::V182,
            183 => Many300D::V183,
            184 => Many300D::V184,
            185 => Many300D::V185,
            186 => Many300D::V186,
            187 => Many300D::V187,
            188 => Many300D::V188,
            189 => Many300D::V189,
            190 => Many300D::V190,
            191 => Many300D::V191,
            192 => Many300D::V192,
            193 => Many300D::V193,
            194 => Many300D::V194,
            195 => Many300D::V195,
            196 => Many300D::V196,
            197 => Many300D::V197,
            198 => Many300D::V198,
            199 => Many300D::V199,
            200 => Many300D::V200,
            201 => Many300D::V201,
            202 => Many300D::V202,
            203 => Many300D::V203,
            204 => Many300D::V204,
            205 => Many300D::V205,
            206 => Many300D::V206,
            207 => Many300D::V207,
            208 => Many300D::V208,
            209 => Many300D::V209,
            210 => Many300D::V210,
            211 => Many300D::V211,
            212 => Many300D::V212,
            213 => Many300D::V213,
            214 => Many300D::V214,
            215 => Many300D::V215,
            216 => Many300D::V216,
            217 => Many300D::V217,
            218 => Many300D::V218,
            219 => Many300D::V219,
            220 => Many300D::V220,
            221 => Many300D::V221,
            222 => Many300D::V222,
            223 => Many300D::V223,
            224 => Many300D::V224,
            225 => Many300D::V225,
            226 => Many300D::V226,
            227 => Many300D::V227,
            228 => Many300D::V228,
            229 => Many300D::V229,
            230 => Many300D::V230,
            231 => Many300D::V231,
            232 => Many300D::V232,
            233 => Many300D::V233,
            234 => Many300D::V234,
            235 => Many300D::V235,
            236 => Many300D::V236,
            237 => Many300D::V237,
            238 => Many300D::V238,
            239 => Many300D::V239,
            240 => Many300D::V240,
            241 => Many300D::V241,
            242 => Many300D::V242,
            243 => Many300D::V243,
            244 => Many300D::V244,
            245 => Many300D::V245,
            246 => Many300D::V246,
            247 => Many300D::V247,
            248 => Many300D::V248,
            249 => Many300D::V249,
            250 => Many300D::V250,
            251 => Many300D::V251,
            252 => Many300D::V252,
            253 => Many300D::V253,
            254 => Many300D::V254,
            255 => Many300D::V255,
            256 => Many300D::V256,
            257 => Many300D::V257,
            258 => Many300D::V258,
            259 => Many300D::V259,
            260 => Many300D::V260,
            261 => Many300D::V261,
            262 => Many300D::V262,
            263 => Many300D::V263,
            264 => Many300D::V264,
            265 => Many300D::V265,
            266 => Many300D::V266,
            267 => Many300D::V267,
            268 => Many300D::V268,
            269 => Many300D::V269,
            270 => Many300D::V270,
            271 => Many300D::V271,
            272 => Many300D::V272,
            273 => Many300D::V273,
            274 => Many300D::V274,
            275 => Many300D::V275,
            276 => Many300D::V276,
            277 => Many300D::V277,
            278 => Many300D::V278,
            279 => Many300D::V279,
            280 => Many300D::V280,
            281 => Many300D::V281,
            282 => Many300D::V282,
            283 => Many300D::V283,
            284 => Many300D::V284,
            285 => Many300D::V285,
            286 => Many300D::V286,
            287 => Many300D::V287,
            288 => Many300D::V288,
            289 => Many300D::V289,
            290 => Many300D::V290,
            291 => Many300D::V291,
            292 => Many300D::V292,
            293 => Many300D::V293,
            294 => Many300D::V294,
            295 => Many300D::V295,
            296 => Many300D::V296,
            297 => Many300D::V297,
            298 => Many300D::V298,
            299 => Many300D::V299,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum Many70T {
    V0 { a: u8 },
    V1 { a: u8 },
    V2 { a: u8 },
    V3 { a: u8 },
    V4 { a: u8 },
    V5 { a: u8 },
    V6 { a: u8 },
    V7 { a: u8 },
    V8 { a: u8 },
    V9 { a: u8 },
    V10 { a: u8 },
    V11 { a: u8 },
    V12 { a: u8 },
    V13 { a: u8 },
    V14 { a: u8 },
    V15 { a: u8 },
    V16 { a: u8 },
    V17 { a: u8 },
    V18 { a: u8 },
    V19 { a: u8 },
    V20 { a: u8 },
    V21 { a: u8 },
    V22 { a: u8 },
    V23 { a: u8 },
    V24 { a: u8 },
    V25 { a: u8 },
    V26 { a: u8 },
    V27 { a: u8 },
    V28 { a: u8 },
    V29 { a: u8 },
    V30 { a: u8 },
    V31 { a: u8 },
    V32 { a: u8 },
    V33 { a: u8 },
    V34 { a: u8 },
    V35 { a: u8 },
    V36 { a: u8 },
    V37 { a: u8 },
    V38 { a: u8 },
    V39 { a: u8 },
    V40 { a: u8 },
    V41 { a: u8 },
    V42 { a: u8 },
    V43 { a: u8 },
    V44 { a: u8 },
    V45 { a: u8 },
    V46 { a: u8 },
    V47 { a: u8 },
    V48 { a: u8 },
    V49 { a: u8 },
    V50 { a: u8 },
    V51 { a: u8 },
    V52 { a: u8 },
    V53 { a: u8 },
    V54 { a: u8 },
    V55 { a: u8 },
    V56 { a: u8 },
    V57 { a: u8 },
    V58 { a: u8 },
    V59 { a: u8 },
    V60 { a: u8 },
    V61 { a: u8 },
    V62 { a: u8 },
    V63 { a: u8 },
    V64 { a: u8 },
    V65 { a: u8 },
    V66 { a: u8 },
    V67 { a: u8 },
    V68 { a: u8 },
    V69 { a: u8 },
}
impl Subj for Many70T {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Many70T".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("V0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V1"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V2"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V3"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V4"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V5"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V6"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V7"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V8"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V9"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V10"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V11"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V12"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V13"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V14"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V15"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V16"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V17"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V18"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V19"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V20"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V21"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V22"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V23"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V24"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V25"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V26"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V27"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V28"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V29"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V30"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V31"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V32"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V33"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V34"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V35"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V36"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V37"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V38"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V39"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V40"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V41"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V42"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V43"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V44"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V45"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V46"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V47"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V48"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V49"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V50"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V51"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V52"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V53"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V54"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V55"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V56"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V57"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V58"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V59"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V60"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V61"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V62"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V63"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V64"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V65"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V66"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V67"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V68"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V69"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Many70T::V0 { a: x0 } => D::Var(0, vec![x0.to_d()]),
            Many70T::V1 { a: x0 } => D::Var(1, vec![x0.to_d()]),
            Many70T::V2 { a: x0 } => D::Var(2, vec![x0.to_d()]),
            Many70T::V3 { a: x0 } => D::Var(3, vec![x0.to_d()]),
            Many70T::V4 { a: x0 } => D::Var(4, vec![x0.to_d()]),
            Many70T::V5 { a: x0 } => D::Var(5, vec![x0.to_d()]),
            Many70T::V6 { a: x0 } => D::Var(6, vec![x0.to_d()]),
            Many70T::V7 { a: x0 } => D::Var(7, vec![x0.to_d()]),
            Many70T::V8 { a: x0 } => D::Var(8, vec![x0.to_d()]),
            Many70T::V9 { a: x0 } => D::Var(9, vec![x0.to_d()]),
            Many70T::V10 { a: x0 } => D::Var(10, vec![x0.to_d()]),
            Many70T::V11 { a: x0 } => D::Var(11, vec![x0.to_d()]),
            Many70T::V12 { a: x0 } => D::Var(12, vec![x0.to_d()]),
            Many70T::V13 { a: x0 } => D::Var(13, vec![x0.to_d()]),
            Many70T::V14 { a: x0 } => D::Var(14, vec![x0.to_d()]),
            Many70T::V15 { a: x0 } => D::Var(15, vec![x0.to_d()]),
            Many70T::V16 { a: x0 } => D::Var(16, vec![x0.to_d()]),
            Many70T::V17 { a: x0 } => D::Var(17, vec![x0.to_d()]),
            Many70T::V18 { a: x0 } => D::Var(18, vec![x0.to_d()]),
            Many70T::V19 { a: x0 } => D::Var(19, vec![x0.to_d()]),
            Many70T::V20 { a: x0 } => D::Var(20, vec![x0.to_d()]),
            Many70T::V21 { a: x0 } => D::Var(21, vec![x0.to_d()]),
            Many70T::V22 { a: x0 } => D::Var(22, vec![x0.to_d()]),
            Many70T::V23 { a: x0 } => D::Var(23, vec![x0.to_d()]),
            Many70T::V24 { a: x0 } => D::Var(24, vec![x0.to_d()]),
            Many70T::V25 { a: x0 } => D::Var(25, vec![x0.to_d()]),
            Many70T::V26 { a: x0 } => D::Var(26, vec![x0.to_d()]),
            Many70T::V27 { a: x0 } => D::Var(27, vec![x0.to_d()]),
            Many70T::V28 { a: x0 } => D::Var(28, vec![x0.to_d()]),
            Many70T::V29 { a: x0 } => D::Var(29, vec![x0.to_d()]),
            Many70T::V30 { a: x0 } => D::Var(30, vec![x0.to_d()]),
            Many70T::V31 { a: x0 } => D::Var(31, vec![x0.to_d()]),
            Many70T::V32 { a: x0 } => D::Var(32, vec![x0.to_d()]),
            Many70T::V33 { a: x0 } => D::Var(33, vec![x0.to_d()]),
            Many70T::V34 { a: x0 } => D::Var(34, vec![x0.to_d()]),
            Many70T::V35 { a: x0 } => D::Var(35, vec![x0.to_d()]),
            Many70T::V36 { a: x0 } => D::Var(36, vec![x0.to_d()]),
            Many70T::V37 { a: x0 } => D::Var(37, vec![x0.to_d()]),
            Many70T::V38 { a: x0 } => D::Var(38, vec![x0.to_d()]),
            Many70T::V39 { a: x0 } => D::Var(39, vec![x0.to_d()]),
            Many70T::V40 { a: x0 } => D::Var(40, vec![x0.to_d()]),
            Many70T::V41 { a: x0 } => D::Var(41, vec![x0.to_d()]),
            Many70T::V42 { a: x0 } => D::Var(42, vec![x0.to_d()]),
            Many70T::V43 { a: x0 } => D::Var(43, vec![x0.to_d()]),
            Many70T::V44 { a: x0 } => D::Var(44, vec![x0.to_d()]),
            Many70T::V45 { a: x0 } => D::Var(45, vec![x0.to_d()]),
            Many70T::V46 { a: x0 } => D::Var(46, vec![x0.to_d()]),
            Many70T::V47 { a: x0 } => D::Var(47, vec![x0.to_d()]),
            Many70T::V48 { a: x0 } => D::Var(48, vec![x0.to_d()]),
            Many70T::V49 { a: x0 } => D::Var(49, vec![x0.to_d()]),
            Many70T::V50 { a: x0 } => D::Var(50, vec![x0.to_d()]),
            Many70T::V51 { a: x0 } => D::Var(51, vec![x0.to_d()]),
            Many70T::V52 { a: x0 } => D::Var(52, vec![x0.to_d()]),
            Many70T::V53 { a: x0 } => D::Var(53, vec![x0.to_d()]),
            Many70T::V54 { a: x0 } => D::Var(54, vec![x0.to_d()]),
            Many70T::V55 { a: x0 } => D::Var(55, vec![x0.to_d()]),
            Many70T::V56 { a: x0 } => D::Var(56, vec![x0.to_d()]),
            Many70T::V57 { a: x0 } => D::Var(57, vec![x0.to_d()]),
            Many70T::V58 { a: x0 } => D::Var(58, vec![x0.to_d()]),
            Many70T::V59 { a: x0 } => D::Var(59, vec![x0.to_d()]),
            Many70T::V60 { a: x0 } => D::Var(60, vec![x0.to_d()]),
            Many70T::V61 { a: x0 } => D::Var(61, vec![x0.to_d()]),
            Many70T::V62 { a: x0 } => D::Var(62, vec![x0.to_d()]),
            Many70T::V63 { a: x0 } => D::Var(63, vec![x0.to_d()]),
            Many70T::V64 { a: x0 } => D::Var(64, vec![x0.to_d()]),
            Many70T::V65 { a: x0 } => D::Var(65, vec![x0.to_d()]),
            Many70T::V66 { a: x0 } => D::Var(66, vec![x0.to_d()]),
            Many70T::V67 { a: x0 } => D::Var(67, vec![x0.to_d()]),
            Many70T::V68 { a: x0 } => D::Var(68, vec![x0.to_d()]),
            Many70T::V69 { a: x0 } => D::Var(69, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Many70T::V0 { a: Subj::from_d(&v[0]) },
            1 => Many70T::V1 { a: Subj::from_d(&v[0]) },
            2 => Many70T::V2 { a: Subj::from_d(&v[0]) },
            3 => Many70T::V3 { a: Subj::from_d(&v[0]) },
            4 => Many70T::V4 { a: Subj::from_d(&v[0]) },
            5 => Many70T::V5 { a: Subj::from_d(&v[0]) },
            6 => Many70T::V6 { a: Subj::from_d(&v[0]) },
            7 => Many70T::V7 { a: Subj::from_d(&v[0]) },
            8 => Many70T::V8 { a: Subj::from_d(&v[0]) },
            9 => Many70T::V9 { a: Subj::from_d(&v[0]) },
            10 => Many70T::V10 { a: Subj::from_d(&v[0]) },
            11 => Many70T::V11 { a: Subj::from_d(&v[0]) },
            12 => Many70T::V12 { a: Subj::from_d(&v[0]) },
            13 => Many70T::V13 { a: Subj::from_d(&v[0]) },
            14 => Many70T::V14 { a: Subj::from_d(&v[0]) },
            15 => Many70T::V15 { a: Subj::from_d(&v[0]) },
            16 => Many70T::V16 { a: Subj::from_d(&v[0]) },
            17 => Many70T::V17 { a: Subj::from_d(&v[0]) },
            18 => Many70T::V18 { a: Subj::from_d(&v[0]) },
            19 => Many70T::V19 { a: Subj::from_d(&v[0]) },
            20 => Many70T::V20 { a: Subj::from_d(&v[0]) },
            21 => Many70T::V21 { a: Subj::from_d(&v[0]) },
            22 => Many70T::V22 { a: Subj::from_d(&v[0]) },
            23 => Many70T::V23 { a: Subj::from_d(&v[0]) },
            24 => Many70T::V24 { a: Subj::from_d(&v[0]) },
            25 => Many70T::V25 { a: Subj::from_d(&v[0]) },
            26 => Many70T::V26 { a: Subj::from_d(&v[0]) },
            27 => Many70T::V27 { a: Subj::from_d(&v[0]) },
            28 => Many70T::V28 { a: Subj::from_d(&v[0]) },
            29 => Many70T::V29 { a: Subj::from_d(&v[0]) },
            30 => Many70T::V30 { a: Subj::from_d(&v[0]) },
            31 => Many70T::V31 { a: Subj::from_d(&v[0]) },
            32 => Many70T::V32 { a: Subj::from_d(&v[0]) },
            33 => Many70T::V33 { a: Subj::from_d(&v[0]) },
            34 => Many70T::V34 { a: Subj::from_d(&v[0]) },
            35 => Many70T::V35 { a: Subj::from_d(&v[0]) },
            36 => Many70T::V36 { a: Subj::from_d(&v[0]) },
            37 => Many70T::V37 { a: Subj::from_d(&v[0]) },
            38 => Many70T::V38 { a: Subj::from_d(&v[0]) },
            39 => Many70T::V39 { a: Subj::from_d(&v[0]) },
            40 => Many70T::V40 { a: Subj::from_d(&v[0]) },
            41 => Many70T::V41 { a: Subj::from_d(&v[0]) },
            42 => Many70T::V42 { a: Subj::from_d(&v[0]) },
            43 => Many70T::V43 { a: Subj::from_d(&v[0]) },
            44 => Many70T::V44 { a: Subj::from_d(&v[0]) },
            45 => Many70T::V45 { a: Subj::from_d(&v[0]) },
            46 => Many70T::V46 { a: Subj::from_d(&v[0]) },
            47 => Many70T::V47 { a: Subj::from_d(&v[0]) },
            48 => Many70T::V48 { a: Subj::from_d(&v[0]) },
            49 => Many70T::V49 { a: Subj::from_d(&v[0]) },
            50 => Many70T::V50 { a: Subj::from_d(&v[0]) },
            51 => Many70T::V51 { a: Subj::from_d(&v[0]) },
            52 => Many70T::V52 { a: Subj::from_d(&v[0]) },
            53 => Many70T::V53 { a: Subj::from_d(&v[0]) },
            54 => Many70T::V54 { a: Subj::from_d(&v[0]) },
            55 => Many70T::V55 { a: Subj::from_d(&v[0]) },
            56 => Many70T::V56 { a: Subj::from_d(&v[0]) },
            57 => Many70T::V57 { a: Subj::from_d(&v[0]) },
            58 => Many70T::V58 { a: Subj::from_d(&v[0]) },
            59 => Many70T::V59 { a: Subj::from_d(&v[0]) },
            60 => Many70T::V60 { a: Subj::from_d(&v[0]) },
            61 => Many70T::V61 { a: Subj::from_d(&v[0]) },
            62 => Many70T::V62 { a: Subj::from_d(&v[0]) },
            63 => Many70T::V63 { a: Subj::from_d(&v[0]) },
            64 => Many70T::V64 { a: Subj::from_d(&v[0]) },
            65 => Many70T::V65 { a: Subj::from_d(&v[0]) },
            66 => Many70T::V66 { a: Subj::from_d(&v[0]) },
            67 => Many70T::V67 { a: Subj::from_d(&v[0]) },
            68 => Many70T::V68 { a: Subj::from_d(&v[0]) },
            69 => Many70T::V69 { a: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum Names {
    A { fields: u8, it: u8, value: u8, v: u8, key: u8, map: u8, items: u8, inner: u8, array: u8, tag: u8, result: u8, index: u8, decoded: u8, item: u8, x: u8, a: u8, f: u8, field: u8, other: u8, name: u8, values: u8, iter: u8, __cbor: u8, __a0: u8, __a1: u8, vec: u8, none: u8, default: u8, std: u8, core: u8, oasis_cbor: u8, u8: u8 },
    #[cbor(allow_unknown)] B { #[cbor(optional)] u8: u8, #[cbor(optional)] oasis_cbor: u8, #[cbor(optional)] core: u8, #[cbor(optional)] std: u8, #[cbor(optional)] default: u8, #[cbor(optional)] none: u8, #[cbor(optional)] vec: u8, #[cbor(optional)] __a1: u8, #[cbor(optional)] __a0: u8, #[cbor(optional)] __cbor: u8, #[cbor(optional)] iter: u8, #[cbor(optional)] values: u8, #[cbor(optional)] name: u8, #[cbor(optional)] other: u8, #[cbor(optional)] field: u8, #[cbor(optional)] f: u8, #[cbor(optional)] a: u8, #[cbor(optional)] x: u8, #[cbor(optional)] item: u8, #[cbor(optional)] decoded: u8, #[cbor(optional)] index: u8, #[cbor(optional)] result: u8, #[cbor(optional)] tag: u8, #[cbor(optional)] array: u8, #[cbor(optional)] inner: u8, #[cbor(optional)] items: u8, #[cbor(optional)] map: u8, #[cbor(optional)] key: u8, #[cbor(optional)] v: u8, #[cbor(optional)] value: u8, #[cbor(optional)] it: u8, #[cbor(optional)] fields: u8 },
    C { #[cbor(skip)] fields: u8, it: u8, value: u8, #[cbor(skip)] v: u8, key: u8, map: u8, #[cbor(skip)] items: u8, inner: u8, array: u8, #[cbor(skip)] tag: u8, result: u8, index: u8, #[cbor(skip)] decoded: u8, item: u8, x: u8, #[cbor(skip)] a: u8, f: u8, field: u8, #[cbor(skip)] other: u8, name: u8, values: u8, #[cbor(skip)] iter: u8, __cbor: u8, __a0: u8, #[cbor(skip)] __a1: u8, vec: u8, none: u8, #[cbor(skip)] default: u8, std: u8, core: u8, #[cbor(skip)] oasis_cbor: u8, u8: u8 },
    #[cbor(as_array)] D { fields: Option<u8>, it: Option<u8>, value: Option<u8>, v: Option<u8>, key: Option<u8>, map: Option<u8>, items: Option<u8>, inner: Option<u8>, array: Option<u8>, tag: Option<u8>, result: Option<u8>, index: Option<u8>, decoded: Option<u8>, item: Option<u8>, x: Option<u8>, a: Option<u8>, f: Option<u8>, field: Option<u8>, other: Option<u8>, name: Option<u8>, values: Option<u8>, iter: Option<u8>, __cbor: Option<u8>, __a0: Option<u8>, __a1: Option<u8>, vec: Option<u8>, none: Option<u8>, default: Option<u8>, std: Option<u8>, core: Option<u8>, oasis_cbor: Option<u8>, u8: Option<u8> },
}
impl Subj for Names {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Names".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("fields"), <u8 as Subj>::ty()), fld(t("it"), <u8 as Subj>::ty()), fld(t("value"), <u8 as Subj>::ty()), fld(t("v"), <u8 as Subj>::ty()), fld(t("key"), <u8 as Subj>::ty()), fld(t("map"), <u8 as Subj>::ty()), fld(t("items"), <u8 as Subj>::ty()), fld(t("inner"), <u8 as Subj>::ty()), fld(t("array"), <u8 as Subj>::ty()), fld(t("tag"), <u8 as Subj>::ty()), fld(t("result"), <u8 as Subj>::ty()), fld(t("index"), <u8 as Subj>::ty()), fld(t("decoded"), <u8 as Subj>::ty()), fld(t("item"), <u8 as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()), fld(t("f"), <u8 as Subj>::ty()), fld(t("field"), <u8 as Subj>::ty()), fld(t("other"), <u8 as Subj>::ty()), fld(t("name"), <u8 as Subj>::ty()), fld(t("values"), <u8 as Subj>::ty()), fld(t("iter"), <u8 as Subj>::ty()), fld(t("__cbor"), <u8 as Subj>::ty()), fld(t("__a0"), <u8 as Subj>::ty()), fld(t("__a1"), <u8 as Subj>::ty()), fld(t("vec"), <u8 as Subj>::ty()), fld(t("none"), <u8 as Subj>::ty()), fld(t("default"), <u8 as Subj>::ty()), fld(t("std"), <u8 as Subj>::ty()), fld(t("core"), <u8 as Subj>::ty()), fld(t("oasis_cbor"), <u8 as Subj>::ty()), fld(t("u8"), <u8 as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("u8"), <u8 as Subj>::ty()).opt(), fld(t("oasis_cbor"), <u8 as Subj>::ty()).opt(), fld(t("core"), <u8 as Subj>::ty()).opt(), fld(t("std"), <u8 as Subj>::ty()).opt(), fld(t("default"), <u8 as Subj>::ty()).opt(), fld(t("none"), <u8 as Subj>::ty()).opt(), fld(t("vec"), <u8 as Subj>::ty()).opt(), fld(t("__a1"), <u8 as Subj>::ty()).opt(), fld(t("__a0"), <u8 as Subj>::ty()).opt(), fld(t("__cbor"), <u8 as Subj>::ty()).opt(), fld(t("iter"), <u8 as Subj>::ty()).opt(), fld(t("values"), <u8 as Subj>::ty()).opt(), fld(t("name"), <u8 as Subj>::ty()).opt(), fld(t("other"), <u8 as Subj>::ty()).opt(), fld(t("field"), <u8 as Subj>::ty()).opt(), fld(t("f"), <u8 as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).opt(), fld(t("item"), <u8 as Subj>::ty()).opt(), fld(t("decoded"), <u8 as Subj>::ty()).opt(), fld(t("index"), <u8 as Subj>::ty()).opt(), fld(t("result"), <u8 as Subj>::ty()).opt(), fld(t("tag"), <u8 as Subj>::ty()).opt(), fld(t("array"), <u8 as Subj>::ty()).opt(), fld(t("inner"), <u8 as Subj>::ty()).opt(), fld(t("items"), <u8 as Subj>::ty()).opt(), fld(t("map"), <u8 as Subj>::ty()).opt(), fld(t("key"), <u8 as Subj>::ty()).opt(), fld(t("v"), <u8 as Subj>::ty()).opt(), fld(t("value"), <u8 as Subj>::ty()).opt(), fld(t("it"), <u8 as Subj>::ty()).opt(), fld(t("fields"), <u8 as Subj>::ty()).opt()] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("fields"), <u8 as Subj>::ty()).skipped(), fld(t("it"), <u8 as Subj>::ty()), fld(t("value"), <u8 as Subj>::ty()), fld(t("v"), <u8 as Subj>::ty()).skipped(), fld(t("key"), <u8 as Subj>::ty()), fld(t("map"), <u8 as Subj>::ty()), fld(t("items"), <u8 as Subj>::ty()).skipped(), fld(t("inner"), <u8 as Subj>::ty()), fld(t("array"), <u8 as Subj>::ty()), fld(t("tag"), <u8 as Subj>::ty()).skipped(), fld(t("result"), <u8 as Subj>::ty()), fld(t("index"), <u8 as Subj>::ty()), fld(t("decoded"), <u8 as Subj>::ty()).skipped(), fld(t("item"), <u8 as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).skipped(), fld(t("f"), <u8 as Subj>::ty()), fld(t("field"), <u8 as Subj>::ty()), fld(t("other"), <u8 as Subj>::ty()).skipped(), fld(t("name"), <u8 as Subj>::ty()), fld(t("values"), <u8 as Subj>::ty()), fld(t("iter"), <u8 as Subj>::ty()).skipped(), fld(t("__cbor"), <u8 as Subj>::ty()), fld(t("__a0"), <u8 as Subj>::ty()), fld(t("__a1"), <u8 as Subj>::ty()).skipped(), fld(t("vec"), <u8 as Subj>::ty()), fld(t("none"), <u8 as Subj>::ty()), fld(t("default"), <u8 as Subj>::ty()).skipped(), fld(t("std"), <u8 as Subj>::ty()), fld(t("core"), <u8 as Subj>::ty()), fld(t("oasis_cbor"), <u8 as Subj>::ty()).skipped(), fld(t("u8"), <u8 as Subj>::ty())] },
            VariantTy { key: t("D"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("fields"), <Option<u8> as Subj>::ty()), fld(t("it"), <Option<u8> as Subj>::ty()), fld(t("value"), <Option<u8> as Subj>::ty()), fld(t("v"), <Option<u8> as Subj>::ty()), fld(t("key"), <Option<u8> as Subj>::ty()), fld(t("map"), <Option<u8> as Subj>::ty()), fld(t("items"), <Option<u8> as Subj>::ty()), fld(t("inner"), <Option<u8> as Subj>::ty()), fld(t("array"), <Option<u8> as Subj>::ty()), fld(t("tag"), <Option<u8> as Subj>::ty()), fld(t("result"), <Option<u8> as Subj>::ty()), fld(t("index"), <Option<u8> as Subj>::ty()), fld(t("decoded"), <Option<u8> as Subj>::ty()), fld(t("item"), <Option<u8> as Subj>::ty()), fld(t("x"), <Option<u8> as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()), fld(t("f"), <Option<u8> as Subj>::ty()), fld(t("field"), <Option<u8> as Subj>::ty()), fld(t("other"), <Option<u8> as Subj>::ty()), fld(t("name"), <Option<u8> as Subj>::ty()), fld(t("values"), <Option<u8> as Subj>::ty()), fld(t("iter"), <Option<u8> as Subj>::ty()), fld(t("__cbor"), <Option<u8> as Subj>::ty()), fld(t("__a0"), <Option<u8> as Subj>::ty()), fld(t("__a1"), <Option<u8> as Subj>::ty()), fld(t("vec"), <Option<u8> as Subj>::ty()), fld(t("none"), <Option<u8> as Subj>::ty()), fld(t("default"), <Option<u8> as Subj>::ty()), fld(t("std"), <Option<u8> as Subj>::ty()), fld(t("core"), <Option<u8> as Subj>::ty()), fld(t("oasis_cbor"), <Option<u8> as Subj>::ty()), fld(t("u8"), <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Names::A { fields: x0, it: x1, value: x2, v: x3, key: x4, map: x5, items: x6, inner: x7, array: x8, tag: x9, result: x10, index: x11, decoded: x12, item: x13, x: x14, a: x15, f: x16, field: x17, other: x18, name: x19, values: x20, iter: x21, __cbor: x22, __a0: x23, __a1: x24, vec: x25, none: x26, default: x27, std: x28, core: x29, oasis_cbor: x30, u8: x31 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d()]),
            Names::B { u8: x0, oasis_cbor: x1, core: x2, std: x3, default: x4, none: x5, vec: x6, __a1: x7, __a0: x8, __cbor: x9, iter: x10, values: x11, name: x12, other: x13, field: x14, f: x15, a: x16, x: x17, item: x18, decoded: x19, index: x20, result: x21, tag: x22, array: x23, inner: x24, items: x25, map: x26, key: x27, v: x28, value: x29, it: x30, fields: x31 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d()]),
            Names::C { fields: x0, it: x1, value: x2, v: x3, key: x4, map: x5, items: x6, inner: x7, array: x8, tag: x9, result: x10, index: x11, decoded: x12, item: x13, x: x14, a: x15, f: x16, field: x17, other: x18, name: x19, values: x20, iter: x21, __cbor: x22, __a0: x23, __a1: x24, vec: x25, none: x26, default: x27, std: x28, core: x29, oasis_cbor: x30, u8: x31 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d()]),
            Names::D { fields: x0, it: x1, value: x2, v: x3, key: x4, map: x5, items: x6, inner: x7, array: x8, tag: x9, result: x10, index: x11, decoded: x12, item: x13, x: x14, a: x15, f: x16, field: x17, other: x18, name: x19, values: x20, iter: x21, __cbor: x22, __a0: x23, __a1: x24, vec: x25, none: x26, default: x27, std: x28, core: x29, oasis_cbor: x30, u8: x31 } => D::Var(3, vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Names::A { fields: Subj::from_d(&v[0]), it: Subj::from_d(&v[1]), value: Subj::from_d(&v[2]), v: Subj::from_d(&v[3]), key: Subj::from_d(&v[4]), map: Subj::from_d(&v[5]), items: Subj::from_d(&v[6]), inner: Subj::from_d(&v[7]), array: Subj::from_d(&v[8]), tag: Subj::from_d(&v[9]), result: Subj::from_d(&v[10]), index: Subj::from_d(&v[11]), decoded: Subj::from_d(&v[12]), item: Subj::from_d(&v[13]), x: Subj::from_d(&v[14]), a: Subj::from_d(&v[15]), f: Subj::from_d(&v[16]), field: Subj::from_d(&v[17]), other: Subj::from_d(&v[18]), name: Subj::from_d(&v[19]), values: Subj::from_d(&v[20]), iter: Subj::from_d(&v[21]), __cbor: Subj::from_d(&v[22]), __a0: Subj::from_d(&v[23]), __a1: Subj::from_d(&v[24]), vec: Subj::from_d(&v[25]), none: Subj::from_d(&v[26]), default: Subj::from_d(&v[27]), std: Subj::from_d(&v[28]), core: Subj::from_d(&v[29]), oasis_cbor: Subj::from_d(&v[30]), u8: Subj::from_d(&v[31]) },
            1 => Names::B { u8: Subj::from_d(&v[0]), oasis_cbor: Subj::from_d(&v[1]), core: Subj::from_d(&v[2]), std: Subj::from_d(&v[3]), default: Subj::from_d(&v[4]), none: Subj::from_d(&v[5]), vec: Subj::from_d(&v[6]), __a1: Subj::from_d(&v[7]), __a0: Subj::from_d(&v[8]), __cbor: Subj::from_d(&v[9]), iter: Subj::from_d(&v[10]), values: Subj::from_d(&v[11]), name: Subj::from_d(&v[12]), other: Subj::from_d(&v[13]), field: Subj::from_d(&v[14]), f: Subj::from_d(&v[15]), a: Subj::from_d(&v[16]), x: Subj::from_d(&v[17]), item: Subj::from_d(&v[18]), decoded: Subj::from_d(&v[19]), index: Subj::from_d(&v[20]), result: Subj::from_d(&v[21]), tag: Subj::from_d(&v[22]), array: Subj::from_d(&v[23]), inner: Subj::from_d(&v[24]), items: Subj::from_d(&v[25]), map: Subj::from_d(&v[26]), key: Subj::from_d(&v[27]), v: Subj::from_d(&v[28]), value: Subj::from_d(&v[29]), it: Subj::from_d(&v[30]), fields: Subj::from_d(&v[31]) },
            2 => Names::C { fields: Subj::from_d(&v[0]), it: Subj::from_d(&v[1]), value: Subj::from_d(&v[2]), v: Subj::from_d(&v[3]), key: Subj::from_d(&v[4]), map: Subj::from_d(&v[5]), items: Subj::from_d(&v[6]), inner: Subj::from_d(&v[7]), array: Subj::from_d(&v[8]), tag: Subj::from_d(&v[9]), result: Subj::from_d(&v[10]), index: Subj::from_d(&v[11]), decoded: Subj::from_d(&v[12]), item: Subj::from_d(&v[13]), x: Subj::from_d(&v[14]), a: Subj::from_d(&v[15]), f: Subj::from_d(&v[16]), field: Subj::from_d(&v[17]), other: Subj::from_d(&v[18]), name: Subj::from_d(&v[19]), values: Subj::from_d(&v[20]), iter: Subj::from_d(&v[21]), __cbor: Subj::from_d(&v[22]), __a0: Subj::from_d(&v[23]), __a1: Subj::from_d(&v[24]), vec: Subj::from_d(&v[25]), none: Subj::from_d(&v[26]), default: Subj::from_d(&v[27]), std: Subj::from_d(&v[28]), core: Subj::from_d(&v[29]), oasis_cbor: Subj::from_d(&v[30]), u8: Subj::from_d(&v[31]) },
            3 => Names::D { fields: Subj::from_d(&v[0]), it: Subj::from_d(&v[1]), value: Subj::from_d(&v[2]), v: Subj::from_d(&v[3]), key: Subj::from_d(&v[4]), map: Subj::from_d(&v[5]), items: Subj::from_d(&v[6]), inner: Subj::from_d(&v[7]), array: Subj::from_d(&v[8]), tag: Subj::from_d(&v[9]), result: Subj::from_d(&v[10]), index: Subj::from_d(&v[11]), decoded: Subj::from_d(&v[12]), item: Subj::from_d(&v[13]), x: Subj::from_d(&v[14]), a: Subj::from_d(&v[15]), f: Subj::from_d(&v[16]), field: Subj::from_d(&v[17]), other: Subj::from_d(&v[18]), name: Subj::from_d(&v[19]), values: Subj::from_d(&v[20]), iter: Subj::from_d(&v[21]), __cbor: Subj::from_d(&v[22]), __a0: Subj::from_d(&v[23]), __a1: Subj::from_d(&v[24]), vec: Subj::from_d(&v[25]), none: Subj::from_d(&v[26]), default: Subj::from_d(&v[27]), std: Subj::from_d(&v[28]), core: Subj::from_d(&v[29]), oasis_cbor: Subj::from_d(&v[30]), u8: Subj::from_d(&v[31]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "tag")]
pub enum NamesT {
    A { fields: u8, it: u8, value: u8, v: u8, key: u8, map: u8, items: u8, inner: u8, array: u8, result: u8, index: u8, decoded: u8, item: u8, x: u8, a: u8, f: u8, field: u8, other: u8, name: u8, values: u8, iter: u8, __cbor: u8, __a0: u8, __a1: u8, vec: u8, none: u8, default: u8, std: u8, core: u8, oasis_cbor: u8, u8: u8 },
    #[cbor(allow_unknown)] B { #[cbor(optional)] u8: u8, #[cbor(optional)] oasis_cbor: u8, #[cbor(optional)] core: u8, #[cbor(optional)] std: u8, #[cbor(optional)] default: u8, #[cbor(optional)] none: u8, #[cbor(optional)] vec: u8, #[cbor(optional)] __a1: u8, #[cbor(optional)] __a0: u8, #[cbor(optional)] __cbor: u8, #[cbor(optional)] iter: u8, #[cbor(optional)] values: u8, #[cbor(optional)] name: u8, #[cbor(optional)] other: u8, #[cbor(optional)] field: u8, #[cbor(optional)] f: u8, #[cbor(optional)] a: u8, #[cbor(optional)] x: u8, #[cbor(optional)] item: u8, #[cbor(optional)] decoded: u8, #[cbor(optional)] index: u8, #[cbor(optional)] result: u8, #[cbor(optional)] array: u8, #[cbor(optional)] inner: u8, #[cbor(optional)] items: u8, #[cbor(optional)] map: u8, #[cbor(optional)] key: u8, #[cbor(optional)] v: u8, #[cbor(optional)] value: u8, #[cbor(optional)] it: u8, #[cbor(optional)] fields: u8 },
    C { #[cbor(skip)] fields: u8, it: u8, value: u8, #[cbor(skip)] v: u8, key: u8, map: u8, #[cbor(skip)] items: u8, inner: u8, array: u8, result: u8, index: u8, #[cbor(skip)] decoded: u8, item: u8, x: u8, #[cbor(skip)] a: u8, f: u8, field: u8, #[cbor(skip)] other: u8, name: u8, values: u8, #[cbor(skip)] iter: u8, __cbor: u8, __a0: u8, #[cbor(skip)] __a1: u8, vec: u8, none: u8, #[cbor(skip)] default: u8, std: u8, core: u8, #[cbor(skip)] oasis_cbor: u8, u8: u8 },
}
impl Subj for NamesT {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "NamesT".into(), tag: Some(t("tag")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("fields"), <u8 as Subj>::ty()), fld(t("it"), <u8 as Subj>::ty()), fld(t("value"), <u8 as Subj>::ty()), fld(t("v"), <u8 as Subj>::ty()), fld(t("key"), <u8 as Subj>::ty()), fld(t("map"), <u8 as Subj>::ty()), fld(t("items"), <u8 as Subj>::ty()), fld(t("inner"), <u8 as Subj>::ty()), fld(t("array"), <u8 as Subj>::ty()), fld(t("result"), <u8 as Subj>::ty()), fld(t("index"), <u8 as Subj>::ty()), fld(t("decoded"), <u8 as Subj>::ty()), fld(t("item"), <u8 as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()), fld(t("f"), <u8 as Subj>::ty()), fld(t("field"), <u8 as Subj>::ty()), fld(t("other"), <u8 as Subj>::ty()), fld(t("name"), <u8 as Subj>::ty()), fld(t("values"), <u8 as Subj>::ty()), fld(t("iter"), <u8 as Subj>::ty()), fld(t("__cbor"), <u8 as Subj>::ty()), fld(t("__a0"), <u8 as Subj>::ty()), fld(t("__a1"), <u8 as Subj>::ty()), fld(t("vec"), <u8 as Subj>::ty()), fld(t("none"), <u8 as Subj>::ty()), fld(t("default"), <u8 as Subj>::ty()), fld(t("std"), <u8 as Subj>::ty()), fld(t("core"), <u8 as Subj>::ty()), fld(t("oasis_cbor"), <u8 as Subj>::ty()), fld(t("u8"), <u8 as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("u8"), <u8 as Subj>::ty()).opt(), fld(t("oasis_cbor"), <u8 as Subj>::ty()).opt(), fld(t("core"), <u8 as Subj>::ty()).opt(), fld(t("std"), <u8 as Subj>::ty()).opt(), fld(t("default"), <u8 as Subj>::ty()).opt(), fld(t("none"), <u8 as Subj>::ty()).opt(), fld(t("vec"), <u8 as Subj>::ty()).opt(), fld(t("__a1"), <u8 as Subj>::ty()).opt(), fld(t("__a0"), <u8 as Subj>::ty()).opt(), fld(t("__cbor"), <u8 as Subj>::ty()).opt(), fld(t("iter"), <u8 as Subj>::ty()).opt(), fld(t("values"), <u8 as Subj>::ty()).opt(), fld(t("name"), <u8 as Subj>::ty()).opt(), fld(t("other"), <u8 as Subj>::ty()).opt(), fld(t("field"), <u8 as Subj>::ty()).opt(), fld(t("f"), <u8 as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).opt(), fld(t("item"), <u8 as Subj>::ty()).opt(), fld(t("decoded"), <u8 as Subj>::ty()).opt(), fld(t("index"), <u8 as Subj>::ty()).opt(), fld(t("result"), <u8 as Subj>::ty()).opt(), fld(t("array"), <u8 as Subj>::ty()).opt(), fld(t("inner"), <u8 as Subj>::ty()).opt(), fld(t("items"), <u8 as Subj>::ty()).opt(), fld(t("map"), <u8 as Subj>::ty()).opt(), fld(t("key"), <u8 as Subj>::ty()).opt(), fld(t("v"), <u8 as Subj>::ty()).opt(), fld(t("value"), <u8 as Subj>::ty()).opt(), fld(t("it"), <u8 as Subj>::ty()).opt(), fld(t("fields"), <u8 as Subj>::ty()).opt()] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("fields"), <u8 as Subj>::ty()).skipped(), fld(t("it"), <u8 as Subj>::ty()), fld(t("value"), <u8 as Subj>::ty()), fld(t("v"), <u8 as Subj>::ty()).skipped(), fld(t("key"), <u8 as Subj>::ty()), fld(t("map"), <u8 as Subj>::ty()), fld(t("items"), <u8 as Subj>::ty()).skipped(), fld(t("inner"), <u8 as Subj>::ty()), fld(t("array"), <u8 as Subj>::ty()), fld(t("result"), <u8 as Subj>::ty()), fld(t("index"), <u8 as Subj>::ty()), fld(t("decoded"), <u8 as Subj>::ty()).skipped(), fld(t("item"), <u8 as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).skipped(), fld(t("f"), <u8 as Subj>::ty()), fld(t("field"), <u8 as Subj>::ty()), fld(t("other"), <u8 as Subj>::ty()).skipped(), fld(t("name"), <u8 as Subj>::ty()), fld(t("values"), <u8 as Subj>::ty()), fld(t("iter"), <u8 as Subj>::ty()).skipped(), fld(t("__cbor"), <u8 as Subj>::ty()), fld(t("__a0"), <u8 as Subj>::ty()), fld(t("__a1"), <u8 as Subj>::ty()).skipped(), fld(t("vec"), <u8 as Subj>::ty()), fld(t("none"), <u8 as Subj>::ty()), fld(t("default"), <u8 as Subj>::ty()).skipped(), fld(t("std"), <u8 as Subj>::ty()), fld(t("core"), <u8 as Subj>::ty()), fld(t("oasis_cbor"), <u8 as Subj>::ty()).skipped(), fld(t("u8"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            NamesT::A { fields: x0, it: x1, value: x2, v: x3, key: x4, map: x5, items: x6, inner: x7, array: x8, result: x9, index: x10, decoded: x11, item: x12, x: x13, a: x14, f: x15, field: x16, other: x17, name: x18, values: x19, iter: x20, __cbor: x21, __a0: x22, __a1: x23, vec: x24, none: x25, default: x26, std: x27, core: x28, oasis_cbor: x29, u8: x30 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d()]),
            NamesT::B { u8: x0, oasis_cbor: x1, core: x2, std: x3, default: x4, none: x5, vec: x6, __a1: x7, __a0: x8, __cbor: x9, iter: x10, values: x11, name: x12, other: x13, field: x14, f: x15, a: x16, x: x17, item: x18, decoded: x19, index: x20, result: x21, array: x22, inner: x23, items: x24, map: x25, key: x26, v: x27, value: x28, it: x29, fields: x30 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d()]),
            NamesT::C { fields: x0, it: x1, value: x2, v: x3, key: x4, map: x5, items: x6, inner: x7, array: x8, result: x9, index: x10, decoded: x11, item: x12, x: x13, a: x14, f: x15, field: x16, other: x17, name: x18, values: x19, iter: x20, __cbor: x21, __a0: x22, __a1: x23, vec: x24, none: x25, default: x26, std: x27, core: x28, oasis_cbor: x29, u8: x30 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => NamesT::A { fields: Subj::from_d(&v[0]), it: Subj::from_d(&v[1]), value: Subj::from_d(&v[2]), v: Subj::from_d(&v[3]), key: Subj::from_d(&v[4]), map: Subj::from_d(&v[5]), items: Subj::from_d(&v[6]), inner: Subj::from_d(&v[7]), array: Subj::from_d(&v[8]), result: Subj::from_d(&v[9]), index: Subj::from_d(&v[10]), decoded: Subj::from_d(&v[11]), item: Subj::from_d(&v[12]), x: Subj::from_d(&v[13]), a: Subj::from_d(&v[14]), f: Subj::from_d(&v[15]), field: Subj::from_d(&v[16]), other: Subj::from_d(&v[17]), name: Subj::from_d(&v[18]), values: Subj::from_d(&v[19]), iter: Subj::from_d(&v[20]), __cbor: Subj::from_d(&v[21]), __a0: Subj::from_d(&v[22]), __a1: Subj::from_d(&v[23]), vec: Subj::from_d(&v[24]), none: Subj::from_d(&v[25]), default: Subj::from_d(&v[26]), std: Subj::from_d(&v[27]), core: Subj::from_d(&v[28]), oasis_cbor: Subj::from_d(&v[29]), u8: Subj::from_d(&v[30]) },
            1 => NamesT::B { u8: Subj::from_d(&v[0]), oasis_cbor: Subj::from_d(&v[1]), core: Subj::from_d(&v[2]), std: Subj::from_d(&v[3]), default: Subj::from_d(&v[4]), none: Subj::from_d(&v[5]), vec: Subj::from_d(&v[6]), __a1: Subj::from_d(&v[7]), __a0: Subj::from_d(&v[8]), __cbor: Subj::from_d(&v[9]), iter: Subj::from_d(&v[10]), values: Subj::from_d(&v[11]), name: Subj::from_d(&v[12]), other: Subj::from_d(&v[13]), field: Subj::from_d(&v[14]), f: Subj::from_d(&v[15]), a: Subj::from_d(&v[16]), x: Subj::from_d(&v[17]), item: Subj::from_d(&v[18]), decoded: Subj::from_d(&v[19]), index: Subj::from_d(&v[20]), result: Subj::from_d(&v[21]), array: Subj::from_d(&v[22]), inner: Subj::from_d(&v[23]), items: Subj::from_d(&v[24]), map: Subj::from_d(&v[25]), key: Subj::from_d(&v[26]), v: Subj::from_d(&v[27]), value: Subj::from_d(&v[28]), it: Subj::from_d(&v[29]), fields: Subj::from_d(&v[30]) },
            2 => NamesT::C { fields: Subj::from_d(&v[0]), it: Subj::from_d(&v[1]), value: Subj::from_d(&v[2]), v: Subj::from_d(&v[3]), key: Subj::from_d(&v[4]), map: Subj::from_d(&v[5]), items: Subj::from_d(&v[6]), inner: Subj::from_d(&v[7]), array: Subj::from_d(&v[8]), result: Subj::from_d(&v[9]), index: Subj::from_d(&v[10]), decoded: Subj::from_d(&v[11]), item: Subj::from_d(&v[12]), x: Subj::from_d(&v[13]), a: Subj::from_d(&v[14]), f: Subj::from_d(&v[15]), field: Subj::from_d(&v[16]), other: Subj::from_d(&v[17]), name: Subj::from_d(&v[18]), values: Subj::from_d(&v[19]), iter: Subj::from_d(&v[20]), __cbor: Subj::from_d(&v[21]), __a0: Subj::from_d(&v[22]), __a1: Subj::from_d(&v[23]), vec: Subj::from_d(&v[24]), none: Subj::from_d(&v[25]), default: Subj::from_d(&v[26]), std: Subj::from_d(&v[27]), core: Subj::from_d(&v[28]), oasis_cbor: Subj::from_d(&v[29]), u8: Subj::from_d(&v[30]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum NamesU {
    A { fields: u8, it: u8, value: u8, v: u8, key: u8, map: u8, items: u8, inner: u8, array: u8, tag: u8, result: u8, index: u8, decoded: u8, item: u8, x: u8, a: u8, f: u8, field: u8, other: u8, name: u8, values: u8, iter: u8, __cbor: u8, __a0: u8, __a1: u8, vec: u8, none: u8, default: u8, std: u8, core: u8, oasis_cbor: u8, u8: u8 },
    #[cbor(allow_unknown)] B { #[cbor(optional)] u8: u8, #[cbor(optional)] oasis_cbor: u8, #[cbor(optional)] core: u8, #[cbor(optional)] std: u8, #[cbor(optional)] default: u8, #[cbor(optional)] none: u8, #[cbor(optional)] vec: u8, #[cbor(optional)] __a1: u8, #[cbor(optional)] __a0: u8, #[cbor(optional)] __cbor: u8, #[cbor(optional)] iter: u8, #[cbor(optional)] values: u8, #[cbor(optional)] name: u8, #[cbor(optional)] other: u8, #[cbor(optional)] field: u8, #[cbor(optional)] f: u8, #[cbor(optional)] a: u8, #[cbor(optional)] x: u8, #[cbor(optional)] item: u8, #[cbor(optional)] decoded: u8, #[cbor(optional)] index: u8, #[cbor(optional)] result: u8, #[cbor(optional)] tag: u8, #[cbor(optional)] array: u8, #[cbor(optional)] inner: u8, #[cbor(optional)] items: u8, #[cbor(optional)] map: u8, #[cbor(optional)] key: u8, #[cbor(optional)] v: u8, #[cbor(optional)] value: u8, #[cbor(optional)] it: u8, #[cbor(optional)] fields: u8 },
    C { #[cbor(skip)] fields: u8, it: u8, value: u8, #[cbor(skip)] v: u8, key: u8, map: u8, #[cbor(skip)] items: u8, inner: u8, array: u8, #[cbor(skip)] tag: u8, result: u8, index: u8, #[cbor(skip)] decoded: u8, item: u8, x: u8, #[cbor(skip)] a: u8, f: u8, field: u8, #[cbor(skip)] other: u8, name: u8, values: u8, #[cbor(skip)] iter: u8, __cbor: u8, __a0: u8, #[cbor(skip)] __a1: u8, vec: u8, none: u8, #[cbor(skip)] default: u8, std: u8, core: u8, #[cbor(skip)] oasis_cbor: u8, u8: u8 },
    #[cbor(as_array)] D { fields: Option<u8>, it: Option<u8>, value: Option<u8>, v: Option<u8>, key: Option<u8>, map: Option<u8>, items: Option<u8>, inner: Option<u8>, array: Option<u8>, tag: Option<u8>, result: Option<u8>, index: Option<u8>, decoded: Option<u8>, item: Option<u8>, x: Option<u8>, a: Option<u8>, f: Option<u8>, field: Option<u8>, other: Option<u8>, name: Option<u8>, values: Option<u8>, iter: Option<u8>, __cbor: Option<u8>, __a0: Option<u8>, __a1: Option<u8>, vec: Option<u8>, none: Option<u8>, default: Option<u8>, std: Option<u8>, core: Option<u8>, oasis_cbor: Option<u8>, u8: Option<u8> },
}
impl Subj for NamesU {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "NamesU".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("fields"), <u8 as Subj>::ty()), fld(t("it"), <u8 as Subj>::ty()), fld(t("value"), <u8 as Subj>::ty()), fld(t("v"), <u8 as Subj>::ty()), fld(t("key"), <u8 as Subj>::ty()), fld(t("map"), <u8 as Subj>::ty()), fld(t("items"), <u8 as Subj>::ty()), fld(t("inner"), <u8 as Subj>::ty()), fld(t("array"), <u8 as Subj>::ty()), fld(t("tag"), <u8 as Subj>::ty()), fld(t("result"), <u8 as Subj>::ty()), fld(t("index"), <u8 as Subj>::ty()), fld(t("decoded"), <u8 as Subj>::ty()), fld(t("item"), <u8 as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()), fld(t("f"), <u8 as Subj>::ty()), fld(t("field"), <u8 as Subj>::ty()), fld(t("other"), <u8 as Subj>::ty()), fld(t("name"), <u8 as Subj>::ty()), fld(t("values"), <u8 as Subj>::ty()), fld(t("iter"), <u8 as Subj>::ty()), fld(t("__cbor"), <u8 as Subj>::ty()), fld(t("__a0"), <u8 as Subj>::ty()), fld(t("__a1"), <u8 as Subj>::ty()), fld(t("vec"), <u8 as Subj>::ty()), fld(t("none"), <u8 as Subj>::ty()), fld(t("default"), <u8 as Subj>::ty()), fld(t("std"), <u8 as Subj>::ty()), fld(t("core"), <u8 as Subj>::ty()), fld(t("oasis_cbor"), <u8 as Subj>::ty()), fld(t("u8"), <u8 as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("u8"), <u8 as Subj>::ty()).opt(), fld(t("oasis_cbor"), <u8 as Subj>::ty()).opt(), fld(t("core"), <u8 as Subj>::ty()).opt(), fld(t("std"), <u8 as Subj>::ty()).opt(), fld(t("default"), <u8 as Subj>::ty()).opt(), fld(t("none"), <u8 as Subj>::ty()).opt(), fld(t("vec"), <u8 as Subj>::ty()).opt(), fld(t("__a1"), <u8 as Subj>::ty()).opt(), fld(t("__a0"), <u8 as Subj>::ty()).opt(), fld(t("__cbor"), <u8 as Subj>::ty()).opt(), fld(t("iter"), <u8 as Subj>::ty()).opt(), fld(t("values"), <u8 as Subj>::ty()).opt(), fld(t("name"), <u8 as Subj>::ty()).opt(), fld(t("other"), <u8 as Subj>::ty()).opt(), fld(t("field"), <u8 as Subj>::ty()).opt(), fld(t("f"), <u8 as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).opt(), fld(t("item"), <u8 as Subj>::ty()).opt(), fld(t("decoded"), <u8 as Subj>::ty()).opt(), fld(t("index"), <u8 as Subj>::ty()).opt(), fld(t("result"), <u8 as Subj>::ty()).opt(), fld(t("tag"), <u8 as Subj>::ty()).opt(), fld(t("array"), <u8 as Subj>::ty()).opt(), fld(t("inner"), <u8 as Subj>::ty()).opt(), fld(t("items"), <u8 as Subj>::ty()).opt(), fld(t("map"), <u8 as Subj>::ty()).opt(), fld(t("key"), <u8 as Subj>::ty()).opt(), fld(t("v"), <u8 as Subj>::ty()).opt(), fld(t("value"), <u8 as Subj>::ty()).opt(), fld(t("it"), <u8 as Subj>::ty()).opt(), fld(t("fields"), <u8 as Subj>::ty()).opt()] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("fields"), <u8 as Subj>::ty()).skipped(), fld(t("it"), <u8 as Subj>::ty()), fld(t("value"), <u8 as Subj>::ty()), fld(t("v"), <u8 as Subj>::ty()).skipped(), fld(t("key"), <u8 as Subj>::ty()), fld(t("map"), <u8 as Subj>::ty()), fld(t("items"), <u8 as Subj>::ty()).skipped(), fld(t("inner"), <u8 as Subj>::ty()), fld(t("array"), <u8 as Subj>::ty()), fld(t("tag"), <u8 as Subj>::ty()).skipped(), fld(t("result"), <u8 as Subj>::ty()), fld(t("index"), <u8 as Subj>::ty()), fld(t("decoded"), <u8 as Subj>::ty()).skipped(), fld(t("item"), <u8 as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).skipped(), fld(t("f"), <u8 as Subj>::ty()), fld(t("field"), <u8 as Subj>::ty()), fld(t("other"), <u8 as Subj>::ty()).skipped(), fld(t("name"), <u8 as Subj>::ty()), fld(t("values"), <u8 as Subj>::ty()), fld(t("iter"), <u8 as Subj>::ty()).skipped(), fld(t("__cbor"), <u8 as Subj>::ty()), fld(t("__a0"), <u8 as Subj>::ty()), fld(t("__a1"), <u8 as Subj>::ty()).skipped(), fld(t("vec"), <u8 as Subj>::ty()), fld(t("none"), <u8 as Subj>::ty()), fld(t("default"), <u8 as Subj>::ty()).skipped(), fld(t("std"), <u8 as Subj>::ty()), fld(t("core"), <u8 as Subj>::ty()), fld(t("oasis_cbor"), <u8 as Subj>::ty()).skipped(), fld(t("u8"), <u8 as Subj>::ty())] },
            VariantTy { key: t("D"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("fields"), <Option<u8> as Subj>::ty()), fld(t("it"), <Option<u8> as Subj>::ty()), fld(t("value"), <Option<u8> as Subj>::ty()), fld(t("v"), <Option<u8> as Subj>::ty()), fld(t("key"), <Option<u8> as Subj>::ty()), fld(t("map"), <Option<u8> as Subj>::ty()), fld(t("items"), <Option<u8> as Subj>::ty()), fld(t("inner"), <Option<u8> as Subj>::ty()), fld(t("array"), <Option<u8> as Subj>::ty()), fld(t("tag"), <Option<u8> as Subj>::ty()), fld(t("result"), <Option<u8> as Subj>::ty()), fld(t("index"), <Option<u8> as Subj>::ty()), fld(t("decoded"), <Option<u8> as Subj>::ty()), fld(t("item"), <Option<u8> as Subj>::ty()), fld(t("x"), <Option<u8> as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()), fld(t("f"), <Option<u8> as Subj>::ty()), fld(t("field"), <Option<u8> as Subj>::ty()), fld(t("other"), <Option<u8> as Subj>::ty()), fld(t("name"), <Option<u8> as Subj>::ty()), fld(t("values"), <Option<u8> as Subj>::ty()), fld(t("iter"), <Option<u8> as Subj>::ty()), fld(t("__cbor"), <Option<u8> as Subj>::ty()), fld(t("__a0"), <Option<u8> as Subj>::ty()), fld(t("__a1"), <Option<u8> as Subj>::ty()), fld(t("vec"), <Option<u8> as Subj>::ty()), fld(t("none"), <Option<u8> as Subj>::ty()), fld(t("default"), <Option<u8> as Subj>::ty()), fld(t("std"), <Option<u8> as Subj>::ty()), fld(t("core"), <Option<u8> as Subj>::ty()), fld(t("oasis_cbor"), <Option<u8> as Subj>::ty()), fld(t("u8"), <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            NamesU::A { fields: x0, it: x1, value: x2, v: x3, key: x4, map: x5, items: x6, inner: x7, array: x8, tag: x9, result: x10, index: x11, decoded: x12, item: x13, x: x14, a: x15, f: x16, field: x17, other: x18, name: x19, values: x20, iter: x21, __cbor: x22, __a0: x23, __a1: x24, vec: x25, none: x26, default: x27, std: x28, core: x29, oasis_cbor: x30, u8: x31 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d()]),
            NamesU::B { u8: x0, oasis_cbor: x1, core: x2, std: x3, default: x4, none: x5, vec: x6, __a1: x7, __a0: x8, __cbor: x9, iter: x10, values: x11, name: x12, other: x13, field: x14, f: x15, a: x16, x: x17, item: x18, decoded: x19, index: x20, result: x21, tag: x22, array: x23, inner: x24, items: x25, map: x26, key: x27, v: x28, value: x29, it: x30, fields: x31 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d()]),
            NamesU::C { fields: x0, it: x1, value: x2, v: x3, key: x4, map: x5, items: x6, inner: x7, array: x8, tag: x9, result: x10, index: x11, decoded: x12, item: x13, x: x14, a: x15, f: x16, field: x17, other: x18, name: x19, values: x20, iter: x21, __cbor: x22, __a0: x23, __a1: x24, vec: x25, none: x26, default: x27, std: x28, core: x29, oasis_cbor: x30, u8: x31 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d()]),
            NamesU::D { fields: x0, it: x1, value: x2, v: x3, key: x4, map: x5, items: x6, inner: x7, array: x8, tag: x9, result: x10, index: x11, decoded: x12, item: x13, x: x14, a: x15, f: x16, field: x17, other: x18, name: x19, values: x20, iter: x21, __cbor: x22, __a0: x23, __a1: x24, vec: x25, none: x26, default: x27, std: x28, core: x29, oasis_cbor: x30, u8: x31 } => D::Var(3, vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => NamesU::A { fields: Subj::from_d(&v[0]), it: Subj::from_d(&v[1]), value: Subj::from_d(&v[2]), v: Subj::from_d(&v[3]), key: Subj::from_d(&v[4]), map: Subj::from_d(&v[5]), items: Subj::from_d(&v[6]), inner: Subj::from_d(&v[7]), array: Subj::from_d(&v[8]), tag: Subj::from_d(&v[9]), result: Subj::from_d(&v[10]), index: Subj::from_d(&v[11]), decoded: Subj::from_d(&v[12]), item: Subj::from_d(&v[13]), x: Subj::from_d(&v[14]), a: Subj::from_d(&v[15]), f: Subj::from_d(&v[16]), field: Subj::from_d(&v[17]), other: Subj::from_d(&v[18]), name: Subj::from_d(&v[19]), values: Subj::from_d(&v[20]), iter: Subj::from_d(&v[21]), __cbor: Subj::from_d(&v[22]), __a0: Subj::from_d(&v[23]), __a1: Subj::from_d(&v[24]), vec: Subj::from_d(&v[25]), none: Subj::from_d(&v[26]), default: Subj::from_d(&v[27]), std: Subj::from_d(&v[28]), core: Subj::from_d(&v[29]), oasis_cbor: Subj::from_d(&v[30]), u8: Subj::from_d(&v[31]) },
            1 => NamesU::B { u8: Subj::from_d(&v[0]), oasis_cbor: Subj::from_d(&v[1]), core: Subj::from_d(&v[2]), std: Subj::from_d(&v[3]), default: Subj::from_d(&v[4]), none: Subj::from_d(&v[5]), vec: Subj::from_d(&v[6]), __a1: Subj::from_d(&v[7]), __a0: Subj::from_d(&v[8]), __cbor: Subj::from_d(&v[9]), iter: Subj::from_d(&v[10]), values: Subj::from_d(&v[11]), name: Subj::from_d(&v[12]), other: Subj::from_d(&v[13]), field: Subj::from_d(&v[14]), f: Subj::from_d(&v[15]), a: Subj::from_d(&v[16]), x: Subj::from_d(&v[17]), item: Subj::from_d(&v[18]), decoded: Subj::from_d(&v[19]), index: Subj::from_d(&v[20]), result: Subj::from_d(&v[21]), tag: Subj::from_d(&v[22]), array: Subj::from_d(&v[23]), inner: Subj::from_d(&v[24]), items: Subj::from_d(&v[25]), map: Subj::from_d(&v[26]), key: Subj::from_d(&v[27]), v: Subj::from_d(&v[28]), value: Subj::from_d(&v[29]), it: Subj::from_d(&v[30]), fields: Subj::from_d(&v[31]) },
            2 => NamesU::C { fields: Subj::from_d(&v[0]), it: Subj::from_d(&v[1]), value: Subj::from_d(&v[2]), v: Subj::from_d(&v[3]), key: Subj::from_d(&v[4]), map: Subj::from_d(&v[5]), items: Subj::from_d(&v[6]), inner: Subj::from_d(&v[7]), array: Subj::from_d(&v[8]), tag: Subj::from_d(&v[9]), result: Subj::from_d(&v[10]), index: Subj::from_d(&v[11]), decoded: Subj::from_d(&v[12]), item: Subj::from_d(&v[13]), x: Subj::from_d(&v[14]), a: Subj::from_d(&v[15]), f: Subj::from_d(&v[16]), field: Subj::from_d(&v[17]), other: Subj::from_d(&v[18]), name: Subj::from_d(&v[19]), values: Subj::from_d(&v[20]), iter: Subj::from_d(&v[21]), __cbor: Subj::from_d(&v[22]), __a0: Subj::from_d(&v[23]), __a1: Subj::from_d(&v[24]), vec: Subj::from_d(&v[25]), none: Subj::from_d(&v[26]), default: Subj::from_d(&v[27]), std: Subj::from_d(&v[28]), core: Subj::from_d(&v[29]), oasis_cbor: Subj::from_d(&v[30]), u8: Subj::from_d(&v[31]) },
            3 => NamesU::D { fields: Subj::from_d(&v[0]), it: Subj::from_d(&v[1]), value: Subj::from_d(&v[2]), v: Subj::from_d(&v[3]), key: Subj::from_d(&v[4]), map: Subj::from_d(&v[5]), items: Subj::from_d(&v[6]), inner: Subj::from_d(&v[7]), array: Subj::from_d(&v[8]), tag: Subj::from_d(&v[9]), result: Subj::from_d(&v[10]), index: Subj::from_d(&v[11]), decoded: Subj::from_d(&v[12]), item: Subj::from_d(&v[13]), x: Subj::from_d(&v[14]), a: Subj::from_d(&v[15]), f: Subj::from_d(&v[16]), field: Subj::from_d(&v[17]), other: Subj::from_d(&v[18]), name: Subj::from_d(&v[19]), values: Subj::from_d(&v[20]), iter: Subj::from_d(&v[21]), __cbor: Subj::from_d(&v[22]), __a0: Subj::from_d(&v[23]), __a1: Subj::from_d(&v[24]), vec: Subj::from_d(&v[25]), none: Subj::from_d(&v[26]), default: Subj::from_d(&v[27]), std: Subj::from_d(&v[28]), core: Subj::from_d(&v[29]), oasis_cbor: Subj::from_d(&v[30]), u8: Subj::from_d(&v[31]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum Words {
    Ok,
    Err(u8),
    Some { a: u8 },
    None,
    Option(u8),
    Result { a: u8 },
    Value,
    Default(u8),
    Error { a: u8 },
    Encode,
    Decode(u8),
    Vec { a: u8 },
    String,
    Map(u8),
    Array { a: u8 },
    Simple,
    NullValue(u8),
    UnknownField { a: u8 },
    _A,
    a(u8),
}
impl Subj for Words {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Words".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Ok"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Err"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Some"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("None"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Option"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Result"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Value"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Default"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Error"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Encode"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Decode"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vec"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("String"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Map"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Array"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Simple"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("NullValue"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("UnknownField"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("_A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("a"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Words::Ok => D::Var(0, vec![]),
            Words::Err(x0) => D::Var(1, vec![x0.to_d()]),
            Words::Some { a: x0 } => D::Var(2, vec![x0.to_d()]),
            Words::None => D::Var(3, vec![]),
            Words::Option(x0) => D::Var(4, vec![x0.to_d()]),
            Words::Result { a: x0 } => D::Var(5, vec![x0.to_d()]),
            Words::Value => D::Var(6, vec![]),
            Words::Default(x0) => D::Var(7, vec![x0.to_d()]),
            Words::Error { a: x0 } => D::Var(8, vec![x0.to_d()]),
            Words::Encode => D::Var(9, vec![]),
            Words::Decode(x0) => D::Var(10, vec![x0.to_d()]),
            Words::Vec { a: x0 } => D::Var(11, vec![x0.to_d()]),
            Words::String => D::Var(12, vec![]),
            Words::Map(x0) => D::Var(13, vec![x0.to_d()]),
            Words::Array { a: x0 } => D::Var(14, vec![x0.to_d()]),
            Words::Simple => D::Var(15, vec![]),
            Words::NullValue(x0) => D::Var(16, vec![x0.to_d()]),
            Words::UnknownField { a: x0 } => D::Var(17, vec![x0.to_d()]),
            Words::_A => D::Var(18, vec![]),
            Words::a(x0) => D::Var(19, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Words::Ok,
            1 => Words::Err(Subj::from_d(&v[0])),
            2 => Words::Some { a: Subj::from_d(&v[0]) },
            3 => Words::None,
            4 => Words::Option(Subj::from_d(&v[0])),
            5 => Words::Result { a: Subj::from_d(&v[0]) },
            6 => Words::Value,
            7 => Words::Default(Subj::from_d(&v[0])),
            8 => Words::Error { a: Subj::from_d(&v[0]) },
            9 => Words::Encode,
            10 => Words::Decode(Subj::from_d(&v[0])),
            11 => Words::Vec { a: Subj::from_d(&v[0]) },
            12 => Words::String,
            13 => Words::Map(Subj::from_d(&v[0])),
            14 => Words::Array { a: Subj::from_d(&v[0]) },
            15 => Words::Simple,
            16 => Words::NullValue(Subj::from_d(&v[0])),
            17 => Words::UnknownField { a: Subj::from_d(&v[0]) },
            18 => Words::_A,
            19 => Words::a(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum Words2 {
    Ok(u8),
    Err { a: u8 },
    Some,
    None(u8),
    Option { a: u8 },
    Result,
    Value(u8),
    Default { a: u8 },
    Error,
    Encode(u8),
    Decode { a: u8 },
    Vec,
    String(u8),
    Map { a: u8 },
    Array,
    Simple(u8),
    NullValue { a: u8 },
    UnknownField,
    _A(u8),
    a { a: u8 },
}
impl Subj for Words2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Words2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Ok"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Err"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Some"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("None"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Option"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Result"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Value"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Default"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Error"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Encode"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Decode"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Vec"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("String"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Map"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Array"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Simple"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("NullValue"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("UnknownField"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("_A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("a"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Words2::Ok(x0) => D::Var(0, vec![x0.to_d()]),
            Words2::Err { a: x0 } => D::Var(1, vec![x0.to_d()]),
            Words2::Some => D::Var(2, vec![]),
            Words2::None(x0) => D::Var(3, vec![x0.to_d()]),
            Words2::Option { a: x0 } => D::Var(4, vec![x0.to_d()]),
            Words2::Result => D::Var(5, vec![]),
            Words2::Value(x0) => D::Var(6, vec![x0.to_d()]),
            Words2::Default { a: x0 } => D::Var(7, vec![x0.to_d()]),
            Words2::Error => D::Var(8, vec![]),
            Words2::Encode(x0) => D::Var(9, vec![x0.to_d()]),
            Words2::Decode { a: x0 } => D::Var(10, vec![x0.to_d()]),
            Words2::Vec => D::Var(11, vec![]),
            Words2::String(x0) => D::Var(12, vec![x0.to_d()]),
            Words2::Map { a: x0 } => D::Var(13, vec![x0.to_d()]),
            Words2::Array => D::Var(14, vec![]),
            Words2::Simple(x0) => D::Var(15, vec![x0.to_d()]),
            Words2::NullValue { a: x0 } => D::Var(16, vec![x0.to_d()]),
            Words2::UnknownField => D::Var(17, vec![]),
            Words2::_A(x0) => D::Var(18, vec![x0.to_d()]),
            Words2::a { a: x0 } => D::Var(19, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Words2::Ok(Subj::from_d(&v[0])),
            1 => Words2::Err { a: Subj::from_d(&v[0]) },
            2 => Words2::Some,
            3 => Words2::None(Subj::from_d(&v[0])),
            4 => Words2::Option { a: Subj::from_d(&v[0]) },
            5 => Words2::Result,
            6 => Words2::Value(Subj::from_d(&v[0])),
            7 => Words2::Default { a: Subj::from_d(&v[0]) },
            8 => Words2::Error,
            9 => Words2::Encode(Subj::from_d(&v[0])),
            10 => Words2::Decode { a: Subj::from_d(&v[0]) },
            11 => Words2::Vec,
            12 => Words2::String(Subj::from_d(&v[0])),
            13 => Words2::Map { a: Subj::from_d(&v[0]) },
            14 => Words2::Array,
            15 => Words2::Simple(Subj::from_d(&v[0])),
            16 => Words2::NullValue { a: Subj::from_d(&v[0]) },
            17 => Words2::UnknownField,
            18 => Words2::_A(Subj::from_d(&v[0])),
            19 => Words2::a { a: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum Words3 {
    Ok { a: u8 },
    Err,
    Some(u8),
    None { a: u8 },
    Option,
    Result(u8),
    Value { a: u8 },
    Default,
    Error(u8),
    Encode { a: u8 },
    Decode,
    Vec(u8),
    String { a: u8 },
    Map,
    Array(u8),
    Simple { a: u8 },
    NullValue,
    UnknownField(u8),
    _A { a: u8 },
    a,
}
impl Subj for Words3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Words3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Ok"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Err"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Some"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("None"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Option"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Result"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Value"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Default"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Error"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Encode"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Decode"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vec"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("String"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Map"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Array"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Simple"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("NullValue"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("UnknownField"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("_A"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("a"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Words3::Ok { a: x0 } => D::Var(0, vec![x0.to_d()]),
            Words3::Err => D::Var(1, vec![]),
            Words3::Some(x0) => D::Var(2, vec![x0.to_d()]),
            Words3::None { a: x0 } => D::Var(3, vec![x0.to_d()]),
            Words3::Option => D::Var(4, vec![]),
            Words3::Result(x0) => D::Var(5, vec![x0.to_d()]),
            Words3::Value { a: x0 } => D::Var(6, vec![x0.to_d()]),
            Words3::Default => D::Var(7, vec![]),
            Words3::Error(x0) => D::Var(8, vec![x0.to_d()]),
            Words3::Encode { a: x0 } => D::Var(9, vec![x0.to_d()]),
            Words3::Decode => D::Var(10, vec![]),
            Words3::Vec(x0) => D::Var(11, vec![x0.to_d()]),
            Words3::String { a: x0 } => D::Var(12, vec![x0.to_d()]),
            Words3::Map => D::Var(13, vec![]),
            Words3::Array(x0) => D::Var(14, vec![x0.to_d()]),
            Words3::Simple { a: x0 } => D::Var(15, vec![x0.to_d()]),
            Words3::NullValue => D::Var(16, vec![]),
            Words3::UnknownField(x0) => D::Var(17, vec![x0.to_d()]),
            Words3::_A { a: x0 } => D::Var(18, vec![x0.to_d()]),
            Words3::a => D::Var(19, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Words3::Ok { a: Subj::from_d(&v[0]) },
            1 => Words3::Err,
            2 => Words3::Some(Subj::from_d(&v[0])),
            3 => Words3::None { a: Subj::from_d(&v[0]) },
            4 => Words3::Option,
            5 => Words3::Result(Subj::from_d(&v[0])),
            6 => Words3::Value { a: Subj::from_d(&v[0]) },
            7 => Words3::Default,
            8 => Words3::Error(Subj::from_d(&v[0])),
            9 => Words3::Encode { a: Subj::from_d(&v[0]) },
            10 => Words3::Decode,
            11 => Words3::Vec(Subj::from_d(&v[0])),
            12 => Words3::String { a: Subj::from_d(&v[0]) },
            13 => Words3::Map,
            14 => Words3::Array(Subj::from_d(&v[0])),
            15 => Words3::Simple { a: Subj::from_d(&v[0]) },
            16 => Words3::NullValue,
            17 => Words3::UnknownField(Subj::from_d(&v[0])),
            18 => Words3::_A { a: Subj::from_d(&v[0]) },
            19 => Words3::a,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum WD0 {
    A,
    B(u8),
}
impl Subj for WD0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "WD0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            WD0::A => D::Var(0, vec![]),
            WD0::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => WD0::A,
            1 => WD0::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for WD0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum WD1 {
    A,
    B(u8),
}
impl Subj for WD1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "WD1".into(), tag: None, untagged: false, default: Some(D::Var(1, vec![D::Int(77)])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            WD1::A => D::Var(0, vec![]),
            WD1::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => WD1::A,
            1 => WD1::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for WD1 {
    fn default() -> Self {
        Self::from_d(&D::Var(1, vec![D::Int(77)]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default, tag = "t")]
pub enum WD2 {
    A { x: u8, y: NS },
    B,
}
impl Subj for WD2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "WD2".into(), tag: Some(t("t")), untagged: false, default: Some(D::Var(1, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()), fld(t("y"), <NS as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            WD2::A { x: x0, y: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            WD2::B => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => WD2::A { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            1 => WD2::B,
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for WD2 {
    fn default() -> Self {
        Self::from_d(&D::Var(1, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum WD3 {
    #[cbor(skip)] A,
    B,
}
impl Subj for WD3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "WD3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            WD3::A => D::Var(0, vec![]),
            WD3::B => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => WD3::A,
            1 => WD3::B,
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for WD3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum WD4 {
    #[cbor(embed)] Em(WD1),
    #[cbor(rename = 0)] B(u8),
}
impl Subj for WD4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "WD4".into(), tag: None, untagged: false, default: Some(D::Var(1, vec![D::Int(1)])), overlap: false, variants: vec![
            VariantTy { key: t("Em"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <WD1 as Subj>::ty())] },
            VariantTy { key: M::U(0), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            WD4::Em(x0) => D::Var(0, vec![x0.to_d()]),
            WD4::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => WD4::Em(Subj::from_d(&v[0])),
            1 => WD4::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for WD4 {
    fn default() -> Self {
        Self::from_d(&D::Var(1, vec![D::Int(1)]))
    }
}
#[derive(Encode, Decode)]
pub struct WDS { pub a: WD1, pub b: WD3, #[cbor(optional)] pub c: WD2, pub d: Option<WD0>, pub e: EN }
impl Subj for WDS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WD1 as Subj>::ty()), fld(t("b"), <WD3 as Subj>::ty()), fld(t("c"), <WD2 as Subj>::ty()).opt(), fld(t("d"), <Option<WD0> as Subj>::ty()), fld(t("e"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WDS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WDS { a: x0, b: x1, c: x2, d: x3, e: x4 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WDS { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]), e: Subj::from_d(&v[4]) }
    }
}
impl Default for WDS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_Unit {
    Va,
}
impl Subj for T_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_Unit_Unit {
    Va,
    Vb,
}
impl Subj for T_Unit_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_Unit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_Unit::Va => D::Var(0, vec![]),
            T_Unit_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_Unit::Va,
            1 => T_Unit_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_Unit_Unit {
    Va,
    #[cbor(missing)] Vb,
}
impl Subj for TM_Unit_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_Unit::Va => D::Var(0, vec![]),
            TM_Unit_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_Unit::Va,
            1 => TM_Unit_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_Unit_UText {
    Va,
    #[cbor(rename = "")] Vb,
}
impl Subj for T_Unit_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_UText".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_UText::Va => D::Var(0, vec![]),
            T_Unit_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_UText::Va,
            1 => T_Unit_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_Unit_UText {
    Va,
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_Unit_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_UText::Va => D::Var(0, vec![]),
            TM_Unit_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_UText::Va,
            1 => TM_Unit_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_Unit_UNum {
    Va,
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_Unit_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_UNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_UNum::Va => D::Var(0, vec![]),
            T_Unit_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_UNum::Va,
            1 => T_Unit_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_Unit_UNum {
    Va,
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_Unit_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_UNum::Va => D::Var(0, vec![]),
            TM_Unit_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_UNum::Va,
            1 => TM_Unit_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_Unit_UStruct {
    Va,
    #[cbor(as_struct)] Vb,
}
impl Subj for T_Unit_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_UStruct::Va => D::Var(0, vec![]),
            T_Unit_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_UStruct::Va,
            1 => T_Unit_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_Unit_UStruct {
    Va,
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_Unit_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_UStruct::Va => D::Var(0, vec![]),
            TM_Unit_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_UStruct::Va,
            1 => TM_Unit_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_Unit_UUnk {
    Va,
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_Unit_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_UUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_UUnk::Va => D::Var(0, vec![]),
            T_Unit_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_UUnk::Va,
            1 => T_Unit_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_Unit_UUnk {
    Va,
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_Unit_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_UUnk::Va => D::Var(0, vec![]),
            TM_Unit_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_UUnk::Va,
            1 => TM_Unit_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_Unit_Named {
    Va,
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_Unit_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_Named".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_Named::Va => D::Var(0, vec![]),
            T_Unit_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_Named::Va,
            1 => T_Unit_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_Unit_Named {
    Va,
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_Unit_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_Named::Va => D::Var(0, vec![]),
            TM_Unit_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_Named::Va,
            1 => TM_Unit_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_Unit_NNum {
    Va,
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_Unit_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_NNum".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_NNum::Va => D::Var(0, vec![]),
            T_Unit_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_NNum::Va,
            1 => T_Unit_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_Unit_NNum {
    Va,
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_Unit_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_NNum::Va => D::Var(0, vec![]),
            TM_Unit_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_NNum::Va,
            1 => TM_Unit_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_Unit_NMix {
    Va,
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_Unit_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_NMix".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_NMix::Va => D::Var(0, vec![]),
            T_Unit_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_NMix::Va,
            1 => T_Unit_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_Unit_NMix {
    Va,
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_Unit_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_NMix::Va => D::Var(0, vec![]),
            TM_Unit_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_NMix::Va,
            1 => TM_Unit_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_Unit_N0 {
    Va,
    Vb {  },
}
impl Subj for T_Unit_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_N0::Va => D::Var(0, vec![]),
            T_Unit_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_N0::Va,
            1 => T_Unit_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_Unit_N0 {
    Va,
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_Unit_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_N0::Va => D::Var(0, vec![]),
            TM_Unit_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_N0::Va,
            1 => TM_Unit_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_Unit_NUnk {
    Va,
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_Unit_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_NUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_NUnk::Va => D::Var(0, vec![]),
            T_Unit_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_NUnk::Va,
            1 => T_Unit_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_Unit_NUnk {
    Va,
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_Unit_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_NUnk::Va => D::Var(0, vec![]),
            TM_Unit_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_NUnk::Va,
            1 => TM_Unit_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_Unit_NNM {
    Va,
    Vb(NM),
}
impl Subj for T_Unit_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_NNM".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_NNM::Va => D::Var(0, vec![]),
            T_Unit_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_NNM::Va,
            1 => T_Unit_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_Unit_NNM {
    Va,
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_Unit_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_NNM::Va => D::Var(0, vec![]),
            TM_Unit_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_NNM::Va,
            1 => TM_Unit_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_Unit_NNS {
    Va,
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_Unit_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_NNS".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_NNS::Va => D::Var(0, vec![]),
            T_Unit_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_NNS::Va,
            1 => T_Unit_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_Unit_NNS {
    Va,
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_Unit_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_NNS::Va => D::Var(0, vec![]),
            TM_Unit_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_NNS::Va,
            1 => TM_Unit_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_Unit_NMap {
    Va,
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_Unit_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_NMap".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_NMap::Va => D::Var(0, vec![]),
            T_Unit_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_NMap::Va,
            1 => T_Unit_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_Unit_NMap {
    Va,
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_Unit_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_NMap::Va => D::Var(0, vec![]),
            TM_Unit_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_NMap::Va,
            1 => TM_Unit_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_Unit_NTag {
    Va,
    Vb(TE),
}
impl Subj for T_Unit_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_NTag".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_NTag::Va => D::Var(0, vec![]),
            T_Unit_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_NTag::Va,
            1 => T_Unit_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_Unit_NTag {
    Va,
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_Unit_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_NTag::Va => D::Var(0, vec![]),
            TM_Unit_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_NTag::Va,
            1 => TM_Unit_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_Unit_NCod {
    Va,
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_Unit_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_NCod".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_NCod::Va => D::Var(0, vec![]),
            T_Unit_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_NCod::Va,
            1 => T_Unit_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_Unit_NCod {
    Va,
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_Unit_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_NCod::Va => D::Var(0, vec![]),
            TM_Unit_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_NCod::Va,
            1 => TM_Unit_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_Unit_SUnit {
    Va,
    #[cbor(skip)] Vb,
}
impl Subj for T_Unit_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_SUnit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_SUnit::Va => D::Var(0, vec![]),
            T_Unit_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_SUnit::Va,
            1 => T_Unit_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_Unit_SNamed {
    Va,
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_Unit_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_SNamed".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_SNamed::Va => D::Var(0, vec![]),
            T_Unit_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_SNamed::Va,
            1 => T_Unit_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_Unit_SNamed {
    Va,
    #[cbor(skip, missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_Unit_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Unit_SNamed".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Unit_SNamed::Va => D::Var(0, vec![]),
            TM_Unit_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Unit_SNamed::Va,
            1 => TM_Unit_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_Unit_SStruct {
    Va,
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_Unit_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_SStruct::Va => D::Var(0, vec![]),
            T_Unit_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_SStruct::Va,
            1 => T_Unit_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_Unit_SMap {
    Va,
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_Unit_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Unit_SMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Unit_SMap::Va => D::Var(0, vec![]),
            T_Unit_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Unit_SMap::Va,
            1 => T_Unit_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UText {
    #[cbor(rename = "n0")] Va,
}
impl Subj for T_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UText_Unit {
    #[cbor(rename = "n0")] Va,
    Vb,
}
impl Subj for T_UText_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_Unit".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_Unit::Va => D::Var(0, vec![]),
            T_UText_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_Unit::Va,
            1 => T_UText_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_UText_Unit {
    #[cbor(rename = "n0")] Va,
    #[cbor(missing)] Vb,
}
impl Subj for TM_UText_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_Unit::Va => D::Var(0, vec![]),
            TM_UText_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_Unit::Va,
            1 => TM_UText_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UText_UText {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = "")] Vb,
}
impl Subj for T_UText_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_UText".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_UText::Va => D::Var(0, vec![]),
            T_UText_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_UText::Va,
            1 => T_UText_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UText_UText {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_UText_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_UText::Va => D::Var(0, vec![]),
            TM_UText_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_UText::Va,
            1 => TM_UText_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UText_UNum {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_UText_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_UNum".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_UNum::Va => D::Var(0, vec![]),
            T_UText_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_UNum::Va,
            1 => T_UText_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UText_UNum {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_UText_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_UNum::Va => D::Var(0, vec![]),
            TM_UText_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_UNum::Va,
            1 => TM_UText_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UText_UStruct {
    #[cbor(rename = "n0")] Va,
    #[cbor(as_struct)] Vb,
}
impl Subj for T_UText_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_UStruct".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_UStruct::Va => D::Var(0, vec![]),
            T_UText_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_UStruct::Va,
            1 => T_UText_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UText_UStruct {
    #[cbor(rename = "n0")] Va,
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_UText_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_UStruct::Va => D::Var(0, vec![]),
            TM_UText_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_UStruct::Va,
            1 => TM_UText_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UText_UUnk {
    #[cbor(rename = "n0")] Va,
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_UText_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_UUnk".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_UUnk::Va => D::Var(0, vec![]),
            T_UText_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_UUnk::Va,
            1 => T_UText_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UText_UUnk {
    #[cbor(rename = "n0")] Va,
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_UText_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_UUnk::Va => D::Var(0, vec![]),
            TM_UText_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_UUnk::Va,
            1 => TM_UText_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UText_Named {
    #[cbor(rename = "n0")] Va,
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_UText_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_Named".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_Named::Va => D::Var(0, vec![]),
            T_UText_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_Named::Va,
            1 => T_UText_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_UText_Named {
    #[cbor(rename = "n0")] Va,
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_UText_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_Named::Va => D::Var(0, vec![]),
            TM_UText_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_Named::Va,
            1 => TM_UText_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UText_NNum {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_UText_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_NNum".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_NNum::Va => D::Var(0, vec![]),
            T_UText_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_NNum::Va,
            1 => T_UText_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_UText_NNum {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_UText_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_NNum::Va => D::Var(0, vec![]),
            TM_UText_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_NNum::Va,
            1 => TM_UText_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UText_NMix {
    #[cbor(rename = "n0")] Va,
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_UText_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_NMix".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_NMix::Va => D::Var(0, vec![]),
            T_UText_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_NMix::Va,
            1 => T_UText_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UText_NMix {
    #[cbor(rename = "n0")] Va,
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_UText_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_NMix::Va => D::Var(0, vec![]),
            TM_UText_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_NMix::Va,
            1 => TM_UText_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UText_N0 {
    #[cbor(rename = "n0")] Va,
    Vb {  },
}
impl Subj for T_UText_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_N0".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_N0::Va => D::Var(0, vec![]),
            T_UText_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_N0::Va,
            1 => T_UText_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UText_N0 {
    #[cbor(rename = "n0")] Va,
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_UText_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_N0::Va => D::Var(0, vec![]),
            TM_UText_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_N0::Va,
            1 => TM_UText_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UText_NUnk {
    #[cbor(rename = "n0")] Va,
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_UText_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_NUnk".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_NUnk::Va => D::Var(0, vec![]),
            T_UText_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_NUnk::Va,
            1 => T_UText_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UText_NUnk {
    #[cbor(rename = "n0")] Va,
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_UText_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_NUnk::Va => D::Var(0, vec![]),
            TM_UText_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_NUnk::Va,
            1 => TM_UText_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UText_NNM {
    #[cbor(rename = "n0")] Va,
    Vb(NM),
}
impl Subj for T_UText_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_NNM::Va => D::Var(0, vec![]),
            T_UText_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_NNM::Va,
            1 => T_UText_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UText_NNM {
    #[cbor(rename = "n0")] Va,
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_UText_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_NNM::Va => D::Var(0, vec![]),
            TM_UText_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_NNM::Va,
            1 => TM_UText_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UText_NNS {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_UText_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_NNS::Va => D::Var(0, vec![]),
            T_UText_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_NNS::Va,
            1 => T_UText_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_UText_NNS {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_UText_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_NNS::Va => D::Var(0, vec![]),
            TM_UText_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_NNS::Va,
            1 => TM_UText_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UText_NMap {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_UText_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_NMap".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_NMap::Va => D::Var(0, vec![]),
            T_UText_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_NMap::Va,
            1 => T_UText_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UText_NMap {
    #[cbor(rename = "n0")] Va,
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_UText_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_NMap::Va => D::Var(0, vec![]),
            TM_UText_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_NMap::Va,
            1 => TM_UText_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UText_NTag {
    #[cbor(rename = "n0")] Va,
    Vb(TE),
}
impl Subj for T_UText_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_NTag".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_NTag::Va => D::Var(0, vec![]),
            T_UText_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_NTag::Va,
            1 => T_UText_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_UText_NTag {
    #[cbor(rename = "n0")] Va,
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_UText_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_NTag::Va => D::Var(0, vec![]),
            TM_UText_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_NTag::Va,
            1 => TM_UText_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UText_NCod {
    #[cbor(rename = "n0")] Va,
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_UText_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_NCod".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_NCod::Va => D::Var(0, vec![]),
            T_UText_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_NCod::Va,
            1 => T_UText_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UText_NCod {
    #[cbor(rename = "n0")] Va,
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_UText_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_NCod::Va => D::Var(0, vec![]),
            TM_UText_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_NCod::Va,
            1 => TM_UText_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UText_SUnit {
    #[cbor(rename = "n0")] Va,
    #[cbor(skip)] Vb,
}
impl Subj for T_UText_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_SUnit".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_SUnit::Va => D::Var(0, vec![]),
            T_UText_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_SUnit::Va,
            1 => T_UText_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_UText_SUnit {
    #[cbor(rename = "n0")] Va,
    #[cbor(skip, missing)] Vb,
}
impl Subj for TM_UText_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UText_SUnit".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UText_SUnit::Va => D::Var(0, vec![]),
            TM_UText_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UText_SUnit::Va,
            1 => TM_UText_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UText_SNamed {
    #[cbor(rename = "n0")] Va,
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_UText_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_SNamed".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_SNamed::Va => D::Var(0, vec![]),
            T_UText_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_SNamed::Va,
            1 => T_UText_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UText_SStruct {
    #[cbor(rename = "n0")] Va,
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_UText_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_SStruct".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_SStruct::Va => D::Var(0, vec![]),
            T_UText_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_SStruct::Va,
            1 => T_UText_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UText_SMap {
    #[cbor(rename = "n0")] Va,
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_UText_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UText_SMap".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UText_SMap::Va => D::Var(0, vec![]),
            T_UText_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UText_SMap::Va,
            1 => T_UText_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UNum {
    #[cbor(rename = 7)] Va,
}
impl Subj for T_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UNum_Unit {
    #[cbor(rename = 7)] Va,
    Vb,
}
impl Subj for T_UNum_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_Unit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_Unit::Va => D::Var(0, vec![]),
            T_UNum_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_Unit::Va,
            1 => T_UNum_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_UNum_Unit {
    #[cbor(rename = 7)] Va,
    #[cbor(missing)] Vb,
}
impl Subj for TM_UNum_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_Unit::Va => D::Var(0, vec![]),
            TM_UNum_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_Unit::Va,
            1 => TM_UNum_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UNum_UText {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = "")] Vb,
}
impl Subj for T_UNum_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_UText".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_UText::Va => D::Var(0, vec![]),
            T_UNum_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_UText::Va,
            1 => T_UNum_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UNum_UText {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_UNum_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_UText::Va => D::Var(0, vec![]),
            TM_UNum_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_UText::Va,
            1 => TM_UNum_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UNum_UNum {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_UNum_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_UNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_UNum::Va => D::Var(0, vec![]),
            T_UNum_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_UNum::Va,
            1 => T_UNum_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UNum_UNum {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_UNum_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_UNum::Va => D::Var(0, vec![]),
            TM_UNum_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_UNum::Va,
            1 => TM_UNum_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UNum_UStruct {
    #[cbor(rename = 7)] Va,
    #[cbor(as_struct)] Vb,
}
impl Subj for T_UNum_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_UStruct::Va => D::Var(0, vec![]),
            T_UNum_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_UStruct::Va,
            1 => T_UNum_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UNum_UStruct {
    #[cbor(rename = 7)] Va,
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_UNum_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_UStruct::Va => D::Var(0, vec![]),
            TM_UNum_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_UStruct::Va,
            1 => TM_UNum_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UNum_UUnk {
    #[cbor(rename = 7)] Va,
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_UNum_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_UUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_UUnk::Va => D::Var(0, vec![]),
            T_UNum_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_UUnk::Va,
            1 => T_UNum_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UNum_UUnk {
    #[cbor(rename = 7)] Va,
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_UNum_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_UUnk::Va => D::Var(0, vec![]),
            TM_UNum_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_UUnk::Va,
            1 => TM_UNum_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UNum_Named {
    #[cbor(rename = 7)] Va,
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_UNum_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_Named".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_Named::Va => D::Var(0, vec![]),
            T_UNum_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_Named::Va,
            1 => T_UNum_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_UNum_Named {
    #[cbor(rename = 7)] Va,
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_UNum_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_Named::Va => D::Var(0, vec![]),
            TM_UNum_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_Named::Va,
            1 => TM_UNum_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UNum_NNum {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_UNum_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_NNum".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_NNum::Va => D::Var(0, vec![]),
            T_UNum_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_NNum::Va,
            1 => T_UNum_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_UNum_NNum {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_UNum_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_NNum::Va => D::Var(0, vec![]),
            TM_UNum_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_NNum::Va,
            1 => TM_UNum_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UNum_NMix {
    #[cbor(rename = 7)] Va,
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_UNum_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_NMix".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_NMix::Va => D::Var(0, vec![]),
            T_UNum_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_NMix::Va,
            1 => T_UNum_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UNum_NMix {
    #[cbor(rename = 7)] Va,
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_UNum_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_NMix::Va => D::Var(0, vec![]),
            TM_UNum_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_NMix::Va,
            1 => TM_UNum_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UNum_N0 {
    #[cbor(rename = 7)] Va,
    Vb {  },
}
impl Subj for T_UNum_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_N0::Va => D::Var(0, vec![]),
            T_UNum_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_N0::Va,
            1 => T_UNum_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UNum_N0 {
    #[cbor(rename = 7)] Va,
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_UNum_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_N0::Va => D::Var(0, vec![]),
            TM_UNum_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_N0::Va,
            1 => TM_UNum_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UNum_NUnk {
    #[cbor(rename = 7)] Va,
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_UNum_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_NUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_NUnk::Va => D::Var(0, vec![]),
            T_UNum_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_NUnk::Va,
            1 => T_UNum_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UNum_NUnk {
    #[cbor(rename = 7)] Va,
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_UNum_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_NUnk::Va => D::Var(0, vec![]),
            TM_UNum_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_NUnk::Va,
            1 => TM_UNum_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UNum_NNM {
    #[cbor(rename = 7)] Va,
    Vb(NM),
}
impl Subj for T_UNum_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_NNM".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_NNM::Va => D::Var(0, vec![]),
            T_UNum_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_NNM::Va,
            1 => T_UNum_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UNum_NNM {
    #[cbor(rename = 7)] Va,
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_UNum_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_NNM::Va => D::Var(0, vec![]),
            TM_UNum_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_NNM::Va,
            1 => TM_UNum_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UNum_NNS {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_UNum_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_NNS".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_NNS::Va => D::Var(0, vec![]),
            T_UNum_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_NNS::Va,
            1 => T_UNum_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_UNum_NNS {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_UNum_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_NNS::Va => D::Var(0, vec![]),
            TM_UNum_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_NNS::Va,
            1 => TM_UNum_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UNum_NMap {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_UNum_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_NMap".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_NMap::Va => D::Var(0, vec![]),
            T_UNum_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_NMap::Va,
            1 => T_UNum_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UNum_NMap {
    #[cbor(rename = 7)] Va,
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_UNum_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_NMap::Va => D::Var(0, vec![]),
            TM_UNum_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_NMap::Va,
            1 => TM_UNum_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UNum_NTag {
    #[cbor(rename = 7)] Va,
    Vb(TE),
}
impl Subj for T_UNum_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_NTag".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_NTag::Va => D::Var(0, vec![]),
            T_UNum_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_NTag::Va,
            1 => T_UNum_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_UNum_NTag {
    #[cbor(rename = 7)] Va,
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_UNum_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_NTag::Va => D::Var(0, vec![]),
            TM_UNum_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_NTag::Va,
            1 => TM_UNum_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UNum_NCod {
    #[cbor(rename = 7)] Va,
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_UNum_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_NCod".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_NCod::Va => D::Var(0, vec![]),
            T_UNum_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_NCod::Va,
            1 => T_UNum_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UNum_NCod {
    #[cbor(rename = 7)] Va,
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_UNum_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_NCod::Va => D::Var(0, vec![]),
            TM_UNum_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_NCod::Va,
            1 => TM_UNum_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UNum_SUnit {
    #[cbor(rename = 7)] Va,
    #[cbor(skip)] Vb,
}
impl Subj for T_UNum_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_SUnit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_SUnit::Va => D::Var(0, vec![]),
            T_UNum_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_SUnit::Va,
            1 => T_UNum_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UNum_SNamed {
    #[cbor(rename = 7)] Va,
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_UNum_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_SNamed".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_SNamed::Va => D::Var(0, vec![]),
            T_UNum_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_SNamed::Va,
            1 => T_UNum_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UNum_SNamed {
    #[cbor(rename = 7)] Va,
    #[cbor(skip, missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_UNum_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UNum_SNamed".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UNum_SNamed::Va => D::Var(0, vec![]),
            TM_UNum_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UNum_SNamed::Va,
            1 => TM_UNum_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UNum_SStruct {
    #[cbor(rename = 7)] Va,
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_UNum_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_SStruct::Va => D::Var(0, vec![]),
            T_UNum_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_SStruct::Va,
            1 => T_UNum_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UNum_SMap {
    #[cbor(rename = 7)] Va,
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_UNum_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UNum_SMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UNum_SMap::Va => D::Var(0, vec![]),
            T_UNum_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UNum_SMap::Va,
            1 => T_UNum_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UStruct {
    #[cbor(as_struct)] Va,
}
impl Subj for T_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UStruct_Unit {
    #[cbor(as_struct)] Va,
    Vb,
}
impl Subj for T_UStruct_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_Unit".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_Unit::Va => D::Var(0, vec![]),
            T_UStruct_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_Unit::Va,
            1 => T_UStruct_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_UStruct_Unit {
    #[cbor(as_struct)] Va,
    #[cbor(missing)] Vb,
}
impl Subj for TM_UStruct_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_Unit::Va => D::Var(0, vec![]),
            TM_UStruct_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_Unit::Va,
            1 => TM_UStruct_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UStruct_UText {
    #[cbor(as_struct)] Va,
    #[cbor(rename = "")] Vb,
}
impl Subj for T_UStruct_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_UText::Va => D::Var(0, vec![]),
            T_UStruct_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_UText::Va,
            1 => T_UStruct_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UStruct_UText {
    #[cbor(as_struct)] Va,
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_UStruct_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_UText::Va => D::Var(0, vec![]),
            TM_UStruct_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_UText::Va,
            1 => TM_UStruct_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UStruct_UNum {
    #[cbor(as_struct)] Va,
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_UStruct_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_UNum".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_UNum::Va => D::Var(0, vec![]),
            T_UStruct_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_UNum::Va,
            1 => T_UStruct_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UStruct_UNum {
    #[cbor(as_struct)] Va,
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_UStruct_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_UNum::Va => D::Var(0, vec![]),
            TM_UStruct_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_UNum::Va,
            1 => TM_UStruct_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UStruct_UStruct {
    #[cbor(as_struct)] Va,
    #[cbor(as_struct)] Vb,
}
impl Subj for T_UStruct_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_UStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_UStruct::Va => D::Var(0, vec![]),
            T_UStruct_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_UStruct::Va,
            1 => T_UStruct_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UStruct_UStruct {
    #[cbor(as_struct)] Va,
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_UStruct_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_UStruct::Va => D::Var(0, vec![]),
            TM_UStruct_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_UStruct::Va,
            1 => TM_UStruct_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UStruct_UUnk {
    #[cbor(as_struct)] Va,
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_UStruct_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_UUnk".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_UUnk::Va => D::Var(0, vec![]),
            T_UStruct_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_UUnk::Va,
            1 => T_UStruct_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UStruct_UUnk {
    #[cbor(as_struct)] Va,
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_UStruct_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_UUnk::Va => D::Var(0, vec![]),
            TM_UStruct_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_UUnk::Va,
            1 => TM_UStruct_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UStruct_Named {
    #[cbor(as_struct)] Va,
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_UStruct_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_Named::Va => D::Var(0, vec![]),
            T_UStruct_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_Named::Va,
            1 => T_UStruct_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_UStruct_Named {
    #[cbor(as_struct)] Va,
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_UStruct_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_Named::Va => D::Var(0, vec![]),
            TM_UStruct_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_Named::Va,
            1 => TM_UStruct_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UStruct_NNum {
    #[cbor(as_struct)] Va,
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_UStruct_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_NNum".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_NNum::Va => D::Var(0, vec![]),
            T_UStruct_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_NNum::Va,
            1 => T_UStruct_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_UStruct_NNum {
    #[cbor(as_struct)] Va,
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_UStruct_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_NNum::Va => D::Var(0, vec![]),
            TM_UStruct_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_NNum::Va,
            1 => TM_UStruct_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UStruct_NMix {
    #[cbor(as_struct)] Va,
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_UStruct_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_NMix".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_NMix::Va => D::Var(0, vec![]),
            T_UStruct_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_NMix::Va,
            1 => T_UStruct_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UStruct_NMix {
    #[cbor(as_struct)] Va,
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_UStruct_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_NMix::Va => D::Var(0, vec![]),
            TM_UStruct_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_NMix::Va,
            1 => TM_UStruct_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UStruct_N0 {
    #[cbor(as_struct)] Va,
    Vb {  },
}
impl Subj for T_UStruct_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_N0".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_N0::Va => D::Var(0, vec![]),
            T_UStruct_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_N0::Va,
            1 => T_UStruct_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UStruct_N0 {
    #[cbor(as_struct)] Va,
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_UStruct_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_N0::Va => D::Var(0, vec![]),
            TM_UStruct_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_N0::Va,
            1 => TM_UStruct_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UStruct_NUnk {
    #[cbor(as_struct)] Va,
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_UStruct_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_NUnk".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_NUnk::Va => D::Var(0, vec![]),
            T_UStruct_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_NUnk::Va,
            1 => T_UStruct_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UStruct_NUnk {
    #[cbor(as_struct)] Va,
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_UStruct_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_NUnk::Va => D::Var(0, vec![]),
            TM_UStruct_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_NUnk::Va,
            1 => TM_UStruct_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UStruct_NNM {
    #[cbor(as_struct)] Va,
    Vb(NM),
}
impl Subj for T_UStruct_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_NNM".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_NNM::Va => D::Var(0, vec![]),
            T_UStruct_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_NNM::Va,
            1 => T_UStruct_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UStruct_NNM {
    #[cbor(as_struct)] Va,
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_UStruct_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_NNM::Va => D::Var(0, vec![]),
            TM_UStruct_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_NNM::Va,
            1 => TM_UStruct_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UStruct_NNS {
    #[cbor(as_struct)] Va,
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_UStruct_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_NNS".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_NNS::Va => D::Var(0, vec![]),
            T_UStruct_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_NNS::Va,
            1 => T_UStruct_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_UStruct_NNS {
    #[cbor(as_struct)] Va,
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_UStruct_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_NNS::Va => D::Var(0, vec![]),
            TM_UStruct_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_NNS::Va,
            1 => TM_UStruct_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UStruct_NMap {
    #[cbor(as_struct)] Va,
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_UStruct_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_NMap".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_NMap::Va => D::Var(0, vec![]),
            T_UStruct_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_NMap::Va,
            1 => T_UStruct_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UStruct_NMap {
    #[cbor(as_struct)] Va,
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_UStruct_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_NMap::Va => D::Var(0, vec![]),
            TM_UStruct_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_NMap::Va,
            1 => TM_UStruct_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UStruct_NTag {
    #[cbor(as_struct)] Va,
    Vb(TE),
}
impl Subj for T_UStruct_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_NTag".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_NTag::Va => D::Var(0, vec![]),
            T_UStruct_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_NTag::Va,
            1 => T_UStruct_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_UStruct_NTag {
    #[cbor(as_struct)] Va,
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_UStruct_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_NTag::Va => D::Var(0, vec![]),
            TM_UStruct_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_NTag::Va,
            1 => TM_UStruct_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UStruct_NCod {
    #[cbor(as_struct)] Va,
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_UStruct_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_NCod".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_NCod::Va => D::Var(0, vec![]),
            T_UStruct_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_NCod::Va,
            1 => T_UStruct_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UStruct_NCod {
    #[cbor(as_struct)] Va,
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_UStruct_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_NCod::Va => D::Var(0, vec![]),
            TM_UStruct_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_NCod::Va,
            1 => TM_UStruct_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UStruct_SUnit {
    #[cbor(as_struct)] Va,
    #[cbor(skip)] Vb,
}
impl Subj for T_UStruct_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_SUnit".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_SUnit::Va => D::Var(0, vec![]),
            T_UStruct_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_SUnit::Va,
            1 => T_UStruct_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UStruct_SNamed {
    #[cbor(as_struct)] Va,
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_UStruct_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_SNamed".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_SNamed::Va => D::Var(0, vec![]),
            T_UStruct_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_SNamed::Va,
            1 => T_UStruct_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UStruct_SStruct {
    #[cbor(as_struct)] Va,
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_UStruct_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_SStruct".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_SStruct::Va => D::Var(0, vec![]),
            T_UStruct_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_SStruct::Va,
            1 => T_UStruct_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_UStruct_SStruct {
    #[cbor(as_struct)] Va,
    #[cbor(skip, as_struct, missing)] Vb,
}
impl Subj for TM_UStruct_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UStruct_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UStruct_SStruct::Va => D::Var(0, vec![]),
            TM_UStruct_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UStruct_SStruct::Va,
            1 => TM_UStruct_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UStruct_SMap {
    #[cbor(as_struct)] Va,
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_UStruct_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UStruct_SMap".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UStruct_SMap::Va => D::Var(0, vec![]),
            T_UStruct_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UStruct_SMap::Va,
            1 => T_UStruct_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UUnk {
    #[cbor(allow_unknown)] Va,
}
impl Subj for T_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UUnk_Unit {
    #[cbor(allow_unknown)] Va,
    Vb,
}
impl Subj for T_UUnk_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_Unit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_Unit::Va => D::Var(0, vec![]),
            T_UUnk_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_Unit::Va,
            1 => T_UUnk_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_UUnk_Unit {
    #[cbor(allow_unknown)] Va,
    #[cbor(missing)] Vb,
}
impl Subj for TM_UUnk_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_Unit::Va => D::Var(0, vec![]),
            TM_UUnk_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_Unit::Va,
            1 => TM_UUnk_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UUnk_UText {
    #[cbor(allow_unknown)] Va,
    #[cbor(rename = "")] Vb,
}
impl Subj for T_UUnk_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_UText".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_UText::Va => D::Var(0, vec![]),
            T_UUnk_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_UText::Va,
            1 => T_UUnk_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UUnk_UText {
    #[cbor(allow_unknown)] Va,
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_UUnk_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_UText::Va => D::Var(0, vec![]),
            TM_UUnk_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_UText::Va,
            1 => TM_UUnk_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UUnk_UNum {
    #[cbor(allow_unknown)] Va,
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_UUnk_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_UNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_UNum::Va => D::Var(0, vec![]),
            T_UUnk_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_UNum::Va,
            1 => T_UUnk_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UUnk_UNum {
    #[cbor(allow_unknown)] Va,
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_UUnk_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_UNum::Va => D::Var(0, vec![]),
            TM_UUnk_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_UNum::Va,
            1 => TM_UUnk_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UUnk_UStruct {
    #[cbor(allow_unknown)] Va,
    #[cbor(as_struct)] Vb,
}
impl Subj for T_UUnk_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_UStruct::Va => D::Var(0, vec![]),
            T_UUnk_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_UStruct::Va,
            1 => T_UUnk_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UUnk_UStruct {
    #[cbor(allow_unknown)] Va,
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_UUnk_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_UStruct::Va => D::Var(0, vec![]),
            TM_UUnk_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_UStruct::Va,
            1 => TM_UUnk_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UUnk_UUnk {
    #[cbor(allow_unknown)] Va,
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_UUnk_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_UUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_UUnk::Va => D::Var(0, vec![]),
            T_UUnk_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_UUnk::Va,
            1 => T_UUnk_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UUnk_UUnk {
    #[cbor(allow_unknown)] Va,
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_UUnk_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_UUnk::Va => D::Var(0, vec![]),
            TM_UUnk_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_UUnk::Va,
            1 => TM_UUnk_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UUnk_Named {
    #[cbor(allow_unknown)] Va,
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_UUnk_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_Named".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_Named::Va => D::Var(0, vec![]),
            T_UUnk_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_Named::Va,
            1 => T_UUnk_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_UUnk_Named {
    #[cbor(allow_unknown)] Va,
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_UUnk_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_Named::Va => D::Var(0, vec![]),
            TM_UUnk_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_Named::Va,
            1 => TM_UUnk_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UUnk_NNum {
    #[cbor(allow_unknown)] Va,
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_UUnk_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_NNum".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_NNum::Va => D::Var(0, vec![]),
            T_UUnk_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_NNum::Va,
            1 => T_UUnk_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_UUnk_NNum {
    #[cbor(allow_unknown)] Va,
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_UUnk_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_NNum::Va => D::Var(0, vec![]),
            TM_UUnk_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_NNum::Va,
            1 => TM_UUnk_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UUnk_NMix {
    #[cbor(allow_unknown)] Va,
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_UUnk_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_NMix".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_NMix::Va => D::Var(0, vec![]),
            T_UUnk_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_NMix::Va,
            1 => T_UUnk_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UUnk_NMix {
    #[cbor(allow_unknown)] Va,
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_UUnk_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_NMix::Va => D::Var(0, vec![]),
            TM_UUnk_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_NMix::Va,
            1 => TM_UUnk_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UUnk_N0 {
    #[cbor(allow_unknown)] Va,
    Vb {  },
}
impl Subj for T_UUnk_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_N0::Va => D::Var(0, vec![]),
            T_UUnk_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_N0::Va,
            1 => T_UUnk_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UUnk_N0 {
    #[cbor(allow_unknown)] Va,
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_UUnk_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_N0::Va => D::Var(0, vec![]),
            TM_UUnk_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_N0::Va,
            1 => TM_UUnk_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UUnk_NUnk {
    #[cbor(allow_unknown)] Va,
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_UUnk_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_NUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_NUnk::Va => D::Var(0, vec![]),
            T_UUnk_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_NUnk::Va,
            1 => T_UUnk_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UUnk_NUnk {
    #[cbor(allow_unknown)] Va,
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_UUnk_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_NUnk::Va => D::Var(0, vec![]),
            TM_UUnk_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_NUnk::Va,
            1 => TM_UUnk_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UUnk_NNM {
    #[cbor(allow_unknown)] Va,
    Vb(NM),
}
impl Subj for T_UUnk_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_NNM".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_NNM::Va => D::Var(0, vec![]),
            T_UUnk_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_NNM::Va,
            1 => T_UUnk_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UUnk_NNM {
    #[cbor(allow_unknown)] Va,
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_UUnk_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_NNM::Va => D::Var(0, vec![]),
            TM_UUnk_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_NNM::Va,
            1 => TM_UUnk_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UUnk_NNS {
    #[cbor(allow_unknown)] Va,
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_UUnk_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_NNS".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_NNS::Va => D::Var(0, vec![]),
            T_UUnk_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_NNS::Va,
            1 => T_UUnk_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_UUnk_NNS {
    #[cbor(allow_unknown)] Va,
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_UUnk_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_NNS::Va => D::Var(0, vec![]),
            TM_UUnk_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_NNS::Va,
            1 => TM_UUnk_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UUnk_NMap {
    #[cbor(allow_unknown)] Va,
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_UUnk_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_NMap".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_NMap::Va => D::Var(0, vec![]),
            T_UUnk_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_NMap::Va,
            1 => T_UUnk_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UUnk_NMap {
    #[cbor(allow_unknown)] Va,
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_UUnk_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_NMap::Va => D::Var(0, vec![]),
            TM_UUnk_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_NMap::Va,
            1 => TM_UUnk_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UUnk_NTag {
    #[cbor(allow_unknown)] Va,
    Vb(TE),
}
impl Subj for T_UUnk_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_NTag".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_NTag::Va => D::Var(0, vec![]),
            T_UUnk_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_NTag::Va,
            1 => T_UUnk_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_UUnk_NTag {
    #[cbor(allow_unknown)] Va,
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_UUnk_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_NTag::Va => D::Var(0, vec![]),
            TM_UUnk_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_NTag::Va,
            1 => TM_UUnk_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_UUnk_NCod {
    #[cbor(allow_unknown)] Va,
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_UUnk_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_NCod".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_NCod::Va => D::Var(0, vec![]),
            T_UUnk_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_NCod::Va,
            1 => T_UUnk_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_UUnk_NCod {
    #[cbor(allow_unknown)] Va,
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_UUnk_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_NCod::Va => D::Var(0, vec![]),
            TM_UUnk_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_NCod::Va,
            1 => TM_UUnk_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_UUnk_SUnit {
    #[cbor(allow_unknown)] Va,
    #[cbor(skip)] Vb,
}
impl Subj for T_UUnk_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_SUnit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_SUnit::Va => D::Var(0, vec![]),
            T_UUnk_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_SUnit::Va,
            1 => T_UUnk_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_UUnk_SNamed {
    #[cbor(allow_unknown)] Va,
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_UUnk_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_SNamed".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_SNamed::Va => D::Var(0, vec![]),
            T_UUnk_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_SNamed::Va,
            1 => T_UUnk_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_UUnk_SNamed {
    #[cbor(allow_unknown)] Va,
    #[cbor(skip, missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_UUnk_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_UUnk_SNamed".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_UUnk_SNamed::Va => D::Var(0, vec![]),
            TM_UUnk_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_UUnk_SNamed::Va,
            1 => TM_UUnk_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_UUnk_SStruct {
    #[cbor(allow_unknown)] Va,
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_UUnk_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_SStruct::Va => D::Var(0, vec![]),
            T_UUnk_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_SStruct::Va,
            1 => T_UUnk_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_UUnk_SMap {
    #[cbor(allow_unknown)] Va,
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_UUnk_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_UUnk_SMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_UUnk_SMap::Va => D::Var(0, vec![]),
            T_UUnk_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_UUnk_SMap::Va,
            1 => T_UUnk_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_Named {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_Named_Unit {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb,
}
impl Subj for T_Named_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_Unit".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_Unit::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_Unit::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_Named_Unit {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb,
}
impl Subj for TM_Named_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_Unit::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_Unit::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_Named_UText {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = "")] Vb,
}
impl Subj for T_Named_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_UText".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_UText::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_UText::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_Named_UText {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_Named_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_UText::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_UText::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_Named_UNum {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_Named_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_UNum".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_UNum::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_UNum::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_Named_UNum {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_Named_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_UNum::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_UNum::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_Named_UStruct {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(as_struct)] Vb,
}
impl Subj for T_Named_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_UStruct".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_UStruct::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_UStruct::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_Named_UStruct {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_Named_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_UStruct::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_UStruct::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_Named_UUnk {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_Named_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_UUnk".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_UUnk::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_UUnk::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_Named_UUnk {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_Named_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_UUnk::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_UUnk::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_Named_Named {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_Named_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_Named".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_Named::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_Named::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_Named_Named {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_Named_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_Named::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_Named::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_Named_NNum {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_Named_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_NNum".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_NNum::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_NNum::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_Named_NNum {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_Named_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_NNum::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_NNum::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_Named_NMix {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_Named_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_NMix".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_NMix::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_NMix::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_Named_NMix {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_Named_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_NMix::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_NMix::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_Named_N0 {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb {  },
}
impl Subj for T_Named_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_N0".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_N0::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_N0::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_Named_N0 {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_Named_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_N0::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_N0::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_Named_NUnk {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_Named_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_NUnk".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_NUnk::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_NUnk::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_Named_NUnk {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_Named_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_NUnk::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_NUnk::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_Named_NNM {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb(NM),
}
impl Subj for T_Named_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_NNM::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_NNM::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_Named_NNM {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_Named_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_NNM::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_NNM::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_Named_NNS {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_Named_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_NNS::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_NNS::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_Named_NNS {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_Named_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_NNS::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_NNS::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_Named_NMap {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_Named_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_NMap".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_NMap::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_NMap::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_Named_NMap {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_Named_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_NMap::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_NMap::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_Named_NTag {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb(TE),
}
impl Subj for T_Named_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_NTag".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_NTag::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_NTag::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_Named_NTag {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_Named_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_NTag::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_NTag::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_Named_NCod {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_Named_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_NCod".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_NCod::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_NCod::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_Named_NCod {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_Named_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_NCod::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_NCod::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_Named_SUnit {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(skip)] Vb,
}
impl Subj for T_Named_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_SUnit".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_SUnit::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_SUnit::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_Named_SUnit {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(skip, missing)] Vb,
}
impl Subj for TM_Named_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_Named_SUnit".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_Named_SUnit::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_Named_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_Named_SUnit::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_Named_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_Named_SNamed {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_Named_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_SNamed".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_SNamed::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_SNamed::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_Named_SStruct {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_Named_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_SStruct".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_SStruct::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_SStruct::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_Named_SMap {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_Named_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_Named_SMap".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_Named_SMap::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_Named_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_Named_SMap::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_Named_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNum {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NNum_Unit {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    Vb,
}
impl Subj for T_NNum_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_Unit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_Unit::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_Unit::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_NNum_Unit {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(missing)] Vb,
}
impl Subj for TM_NNum_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_Unit::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_Unit::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NNum_UText {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = "")] Vb,
}
impl Subj for T_NNum_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_UText".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_UText::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_UText::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NNum_UText {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_NNum_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_UText::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_UText::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NNum_UNum {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_NNum_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_UNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_UNum::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_UNum::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNum_UNum {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_NNum_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_UNum::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_UNum::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNum_UStruct {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(as_struct)] Vb,
}
impl Subj for T_NNum_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_UStruct::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_UStruct::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNum_UStruct {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_NNum_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_UStruct::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_UStruct::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NNum_UUnk {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_NNum_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_UUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_UUnk::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_UUnk::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NNum_UUnk {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_NNum_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_UUnk::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_UUnk::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NNum_Named {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NNum_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_Named".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_Named::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_Named::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NNum_Named {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NNum_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_Named::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_Named::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NNum_NNum {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_NNum_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_NNum".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_NNum::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_NNum::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_NNum_NNum {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_NNum_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_NNum::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_NNum::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NNum_NMix {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_NNum_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_NMix".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_NMix::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_NMix::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNum_NMix {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_NNum_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_NMix::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_NMix::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNum_N0 {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    Vb {  },
}
impl Subj for T_NNum_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_N0::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_N0::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNum_N0 {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_NNum_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_N0::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_N0::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NNum_NUnk {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_NNum_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_NUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_NUnk::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_NUnk::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NNum_NUnk {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_NNum_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_NUnk::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_NUnk::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NNum_NNM {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    Vb(NM),
}
impl Subj for T_NNum_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_NNM".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_NNM::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_NNM::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNum_NNM {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_NNum_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_NNM::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_NNM::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NNum_NNS {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_NNum_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_NNS".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_NNS::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_NNS::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NNum_NNS {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_NNum_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_NNS::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_NNS::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NNum_NMap {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NNum_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_NMap".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_NMap::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_NMap::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNum_NMap {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_NNum_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_NMap::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_NMap::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNum_NTag {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    Vb(TE),
}
impl Subj for T_NNum_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_NTag".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_NTag::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_NTag::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NNum_NTag {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_NNum_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_NTag::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_NTag::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NNum_NCod {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_NNum_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_NCod".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_NCod::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_NCod::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NNum_NCod {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_NNum_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_NCod::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_NCod::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NNum_SUnit {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(skip)] Vb,
}
impl Subj for T_NNum_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_SUnit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_SUnit::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_SUnit::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NNum_SNamed {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NNum_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_SNamed".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_SNamed::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_SNamed::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNum_SNamed {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(skip, missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NNum_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNum_SNamed".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNum_SNamed::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NNum_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNum_SNamed::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => TM_NNum_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NNum_SStruct {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_NNum_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_SStruct::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_SStruct::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNum_SMap {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NNum_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNum_SMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNum_SMap::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NNum_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNum_SMap::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T_NNum_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NMix {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NMix_Unit {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb,
}
impl Subj for T_NMix_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_Unit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_Unit::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_Unit::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_NMix_Unit {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(missing)] Vb,
}
impl Subj for TM_NMix_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_Unit::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_Unit::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NMix_UText {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = "")] Vb,
}
impl Subj for T_NMix_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_UText".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_UText::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_UText::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NMix_UText {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_NMix_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_UText::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_UText::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NMix_UNum {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_NMix_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_UNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_UNum::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_UNum::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMix_UNum {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_NMix_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_UNum::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_UNum::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NMix_UStruct {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(as_struct)] Vb,
}
impl Subj for T_NMix_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_UStruct::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_UStruct::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMix_UStruct {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_NMix_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_UStruct::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_UStruct::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NMix_UUnk {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_NMix_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_UUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_UUnk::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_UUnk::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NMix_UUnk {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_NMix_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_UUnk::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_UUnk::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NMix_Named {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NMix_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_Named".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_Named::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_Named::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NMix_Named {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NMix_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_Named::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_Named::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NMix_NNum {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_NMix_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_NNum".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_NNum::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_NNum::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_NMix_NNum {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_NMix_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_NNum::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_NNum::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NMix_NMix {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_NMix_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_NMix".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_NMix::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_NMix::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMix_NMix {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_NMix_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_NMix::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_NMix::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NMix_N0 {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb {  },
}
impl Subj for T_NMix_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_N0::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_N0::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMix_N0 {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_NMix_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_N0::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_N0::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NMix_NUnk {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_NMix_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_NUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_NUnk::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_NUnk::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NMix_NUnk {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_NMix_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_NUnk::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_NUnk::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NMix_NNM {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb(NM),
}
impl Subj for T_NMix_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_NNM".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_NNM::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_NNM::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMix_NNM {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_NMix_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_NNM::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_NNM::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NMix_NNS {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_NMix_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_NNS".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_NNS::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_NNS::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NMix_NNS {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_NMix_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_NNS::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_NNS::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NMix_NMap {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NMix_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_NMap".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_NMap::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_NMap::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMix_NMap {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_NMix_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_NMap::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_NMap::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NMix_NTag {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb(TE),
}
impl Subj for T_NMix_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_NTag".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_NTag::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_NTag::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NMix_NTag {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_NMix_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_NTag::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_NTag::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NMix_NCod {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_NMix_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_NCod".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_NCod::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_NCod::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NMix_NCod {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_NMix_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_NCod::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_NCod::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NMix_SUnit {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(skip)] Vb,
}
impl Subj for T_NMix_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_SUnit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_SUnit::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_SUnit::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NMix_SNamed {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NMix_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_SNamed".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_SNamed::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_SNamed::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMix_SNamed {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(skip, missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NMix_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMix_SNamed".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMix_SNamed::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            TM_NMix_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMix_SNamed::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => TM_NMix_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NMix_SStruct {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_NMix_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_SStruct::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_SStruct::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NMix_SMap {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NMix_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMix_SMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMix_SMap::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
            T_NMix_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMix_SMap::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            1 => T_NMix_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_N0 {
    Va {  },
}
impl Subj for T_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0::Va {  } => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0::Va {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_N0_Unit {
    Va {  },
    Vb,
}
impl Subj for T_N0_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_Unit".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_Unit::Va {  } => D::Var(0, vec![]),
            T_N0_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_Unit::Va {  },
            1 => T_N0_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_N0_Unit {
    Va {  },
    #[cbor(missing)] Vb,
}
impl Subj for TM_N0_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_Unit::Va {  } => D::Var(0, vec![]),
            TM_N0_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_Unit::Va {  },
            1 => TM_N0_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_N0_UText {
    Va {  },
    #[cbor(rename = "")] Vb,
}
impl Subj for T_N0_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_UText::Va {  } => D::Var(0, vec![]),
            T_N0_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_UText::Va {  },
            1 => T_N0_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_N0_UText {
    Va {  },
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_N0_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_UText::Va {  } => D::Var(0, vec![]),
            TM_N0_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_UText::Va {  },
            1 => TM_N0_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_N0_UNum {
    Va {  },
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_N0_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_UNum".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_UNum::Va {  } => D::Var(0, vec![]),
            T_N0_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_UNum::Va {  },
            1 => T_N0_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_N0_UNum {
    Va {  },
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_N0_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_UNum::Va {  } => D::Var(0, vec![]),
            TM_N0_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_UNum::Va {  },
            1 => TM_N0_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_N0_UStruct {
    Va {  },
    #[cbor(as_struct)] Vb,
}
impl Subj for T_N0_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_UStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_UStruct::Va {  } => D::Var(0, vec![]),
            T_N0_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_UStruct::Va {  },
            1 => T_N0_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_N0_UStruct {
    Va {  },
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_N0_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_UStruct::Va {  } => D::Var(0, vec![]),
            TM_N0_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_UStruct::Va {  },
            1 => TM_N0_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_N0_UUnk {
    Va {  },
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_N0_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_UUnk".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_UUnk::Va {  } => D::Var(0, vec![]),
            T_N0_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_UUnk::Va {  },
            1 => T_N0_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_N0_UUnk {
    Va {  },
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_N0_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_UUnk::Va {  } => D::Var(0, vec![]),
            TM_N0_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_UUnk::Va {  },
            1 => TM_N0_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_N0_Named {
    Va {  },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_N0_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_Named::Va {  } => D::Var(0, vec![]),
            T_N0_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_Named::Va {  },
            1 => T_N0_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_N0_Named {
    Va {  },
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_N0_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_Named::Va {  } => D::Var(0, vec![]),
            TM_N0_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_Named::Va {  },
            1 => TM_N0_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_N0_NNum {
    Va {  },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_N0_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_NNum".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_NNum::Va {  } => D::Var(0, vec![]),
            T_N0_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_NNum::Va {  },
            1 => T_N0_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_N0_NNum {
    Va {  },
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_N0_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_NNum::Va {  } => D::Var(0, vec![]),
            TM_N0_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_NNum::Va {  },
            1 => TM_N0_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_N0_NMix {
    Va {  },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_N0_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_NMix".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_NMix::Va {  } => D::Var(0, vec![]),
            T_N0_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_NMix::Va {  },
            1 => T_N0_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_N0_NMix {
    Va {  },
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_N0_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_NMix::Va {  } => D::Var(0, vec![]),
            TM_N0_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_NMix::Va {  },
            1 => TM_N0_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_N0_N0 {
    Va {  },
    Vb {  },
}
impl Subj for T_N0_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_N0".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_N0::Va {  } => D::Var(0, vec![]),
            T_N0_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_N0::Va {  },
            1 => T_N0_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_N0_N0 {
    Va {  },
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_N0_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_N0::Va {  } => D::Var(0, vec![]),
            TM_N0_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_N0::Va {  },
            1 => TM_N0_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_N0_NUnk {
    Va {  },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_N0_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_NUnk".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_NUnk::Va {  } => D::Var(0, vec![]),
            T_N0_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_NUnk::Va {  },
            1 => T_N0_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_N0_NUnk {
    Va {  },
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_N0_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_NUnk::Va {  } => D::Var(0, vec![]),
            TM_N0_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_NUnk::Va {  },
            1 => TM_N0_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_N0_NNM {
    Va {  },
    Vb(NM),
}
impl Subj for T_N0_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_NNM".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_NNM::Va {  } => D::Var(0, vec![]),
            T_N0_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_NNM::Va {  },
            1 => T_N0_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_N0_NNM {
    Va {  },
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_N0_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_NNM::Va {  } => D::Var(0, vec![]),
            TM_N0_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_NNM::Va {  },
            1 => TM_N0_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_N0_NNS {
    Va {  },
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_N0_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_NNS".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_NNS::Va {  } => D::Var(0, vec![]),
            T_N0_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_NNS::Va {  },
            1 => T_N0_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_N0_NNS {
    Va {  },
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_N0_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_NNS::Va {  } => D::Var(0, vec![]),
            TM_N0_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_NNS::Va {  },
            1 => TM_N0_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_N0_NMap {
    Va {  },
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_N0_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_NMap".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_NMap::Va {  } => D::Var(0, vec![]),
            T_N0_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_NMap::Va {  },
            1 => T_N0_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_N0_NMap {
    Va {  },
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_N0_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_NMap::Va {  } => D::Var(0, vec![]),
            TM_N0_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_NMap::Va {  },
            1 => TM_N0_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_N0_NTag {
    Va {  },
    Vb(TE),
}
impl Subj for T_N0_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_NTag".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_NTag::Va {  } => D::Var(0, vec![]),
            T_N0_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_NTag::Va {  },
            1 => T_N0_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_N0_NTag {
    Va {  },
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_N0_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_NTag::Va {  } => D::Var(0, vec![]),
            TM_N0_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_NTag::Va {  },
            1 => TM_N0_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_N0_NCod {
    Va {  },
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_N0_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_NCod".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_NCod::Va {  } => D::Var(0, vec![]),
            T_N0_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_NCod::Va {  },
            1 => T_N0_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_N0_NCod {
    Va {  },
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_N0_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_NCod::Va {  } => D::Var(0, vec![]),
            TM_N0_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_NCod::Va {  },
            1 => TM_N0_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_N0_SUnit {
    Va {  },
    #[cbor(skip)] Vb,
}
impl Subj for T_N0_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_SUnit".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_SUnit::Va {  } => D::Var(0, vec![]),
            T_N0_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_SUnit::Va {  },
            1 => T_N0_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_N0_SNamed {
    Va {  },
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_N0_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_SNamed".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_SNamed::Va {  } => D::Var(0, vec![]),
            T_N0_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_SNamed::Va {  },
            1 => T_N0_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_N0_SStruct {
    Va {  },
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_N0_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_SStruct".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_SStruct::Va {  } => D::Var(0, vec![]),
            T_N0_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_SStruct::Va {  },
            1 => T_N0_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_N0_SMap {
    Va {  },
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_N0_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_N0_SMap".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_N0_SMap::Va {  } => D::Var(0, vec![]),
            T_N0_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_N0_SMap::Va {  },
            1 => T_N0_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_N0_SMap {
    Va {  },
    #[cbor(skip, rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_N0_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_N0_SMap".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_N0_SMap::Va {  } => D::Var(0, vec![]),
            TM_N0_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_N0_SMap::Va {  },
            1 => TM_N0_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NUnk {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NUnk_Unit {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb,
}
impl Subj for T_NUnk_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_Unit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_Unit::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_Unit::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_NUnk_Unit {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(missing)] Vb,
}
impl Subj for TM_NUnk_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_Unit::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_Unit::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NUnk_UText {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = "")] Vb,
}
impl Subj for T_NUnk_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_UText".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_UText::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_UText::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NUnk_UText {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_NUnk_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_UText::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_UText::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NUnk_UNum {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_NUnk_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_UNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_UNum::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_UNum::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NUnk_UNum {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_NUnk_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_UNum::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_UNum::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NUnk_UStruct {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(as_struct)] Vb,
}
impl Subj for T_NUnk_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_UStruct::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_UStruct::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NUnk_UStruct {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_NUnk_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_UStruct::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_UStruct::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NUnk_UUnk {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_NUnk_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_UUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_UUnk::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_UUnk::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NUnk_UUnk {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_NUnk_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_UUnk::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_UUnk::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NUnk_Named {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NUnk_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_Named".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_Named::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_Named::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NUnk_Named {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NUnk_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_Named::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_Named::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NUnk_NNum {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_NUnk_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_NNum".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_NNum::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_NNum::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_NUnk_NNum {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_NUnk_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_NNum::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_NNum::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NUnk_NMix {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_NUnk_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_NMix".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_NMix::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_NMix::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NUnk_NMix {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_NUnk_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_NMix::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_NMix::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NUnk_N0 {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb {  },
}
impl Subj for T_NUnk_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_N0::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_N0::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NUnk_N0 {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_NUnk_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_N0::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_N0::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NUnk_NUnk {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_NUnk_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_NUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_NUnk::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_NUnk::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NUnk_NUnk {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_NUnk_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_NUnk::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_NUnk::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NUnk_NNM {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb(NM),
}
impl Subj for T_NUnk_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_NNM".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_NNM::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_NNM::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NUnk_NNM {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_NUnk_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_NNM::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_NNM::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NUnk_NNS {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_NUnk_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_NNS".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_NNS::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_NNS::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NUnk_NNS {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_NUnk_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_NNS::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_NNS::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NUnk_NMap {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NUnk_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_NMap".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_NMap::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_NMap::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NUnk_NMap {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_NUnk_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_NMap::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_NMap::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NUnk_NTag {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb(TE),
}
impl Subj for T_NUnk_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_NTag".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_NTag::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_NTag::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NUnk_NTag {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_NUnk_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_NTag::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_NTag::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NUnk_NCod {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_NUnk_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_NCod".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_NCod::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_NCod::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NUnk_NCod {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_NUnk_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_NCod::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_NCod::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NUnk_SUnit {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(skip)] Vb,
}
impl Subj for T_NUnk_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_SUnit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_SUnit::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_SUnit::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NUnk_SNamed {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NUnk_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_SNamed".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_SNamed::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_SNamed::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NUnk_SNamed {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(skip, missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NUnk_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NUnk_SNamed".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NUnk_SNamed::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_NUnk_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NUnk_SNamed::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => TM_NUnk_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NUnk_SStruct {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_NUnk_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_SStruct::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_SStruct::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NUnk_SMap {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NUnk_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NUnk_SMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NUnk_SMap::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_NUnk_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NUnk_SMap::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            1 => T_NUnk_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNM {
    Va(NM),
}
impl Subj for T_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NNM_Unit {
    Va(NM),
    Vb,
}
impl Subj for T_NNM_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_Unit".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_Unit::Va(Subj::from_d(&v[0])),
            1 => T_NNM_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_NNM_Unit {
    Va(NM),
    #[cbor(missing)] Vb,
}
impl Subj for TM_NNM_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_Unit::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNM_UText {
    Va(NM),
    #[cbor(rename = "")] Vb,
}
impl Subj for T_NNM_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_UText".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_UText::Va(Subj::from_d(&v[0])),
            1 => T_NNM_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NNM_UText {
    Va(NM),
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_NNM_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_UText::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NNM_UNum {
    Va(NM),
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_NNM_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_UNum".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_UNum::Va(Subj::from_d(&v[0])),
            1 => T_NNM_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNM_UNum {
    Va(NM),
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_NNM_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_UNum::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NNM_UStruct {
    Va(NM),
    #[cbor(as_struct)] Vb,
}
impl Subj for T_NNM_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_UStruct".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_UStruct::Va(Subj::from_d(&v[0])),
            1 => T_NNM_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNM_UStruct {
    Va(NM),
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_NNM_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_UStruct::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NNM_UUnk {
    Va(NM),
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_NNM_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_UUnk".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_UUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_UUnk::Va(Subj::from_d(&v[0])),
            1 => T_NNM_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NNM_UUnk {
    Va(NM),
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_NNM_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_UUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_UUnk::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NNM_Named {
    Va(NM),
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NNM_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_Named".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_Named::Va(Subj::from_d(&v[0])),
            1 => T_NNM_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NNM_Named {
    Va(NM),
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NNM_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_Named::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNM_NNum {
    Va(NM),
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_NNM_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_NNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_NNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_NNum::Va(Subj::from_d(&v[0])),
            1 => T_NNM_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_NNM_NNum {
    Va(NM),
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_NNM_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_NNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_NNum::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NNM_NMix {
    Va(NM),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_NNM_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_NMix".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_NMix::Va(Subj::from_d(&v[0])),
            1 => T_NNM_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNM_NMix {
    Va(NM),
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_NNM_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_NMix::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NNM_N0 {
    Va(NM),
    Vb {  },
}
impl Subj for T_NNM_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_N0".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_N0::Va(Subj::from_d(&v[0])),
            1 => T_NNM_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNM_N0 {
    Va(NM),
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_NNM_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_N0::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NNM_NUnk {
    Va(NM),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_NNM_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_NUnk".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_NUnk::Va(Subj::from_d(&v[0])),
            1 => T_NNM_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NNM_NUnk {
    Va(NM),
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_NNM_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_NUnk::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NNM_NNM {
    Va(NM),
    Vb(NM),
}
impl Subj for T_NNM_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_NNM".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_NNM::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_NNM::Va(Subj::from_d(&v[0])),
            1 => T_NNM_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNM_NNM {
    Va(NM),
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_NNM_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_NNM::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_NNM::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNM_NNS {
    Va(NM),
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_NNM_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_NNS".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_NNS::Va(Subj::from_d(&v[0])),
            1 => T_NNM_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NNM_NNS {
    Va(NM),
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_NNM_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_NNS::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NNM_NMap {
    Va(NM),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NNM_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_NMap".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_NMap::Va(Subj::from_d(&v[0])),
            1 => T_NNM_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNM_NMap {
    Va(NM),
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_NNM_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_NMap::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NNM_NTag {
    Va(NM),
    Vb(TE),
}
impl Subj for T_NNM_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_NTag".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_NTag::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_NTag::Va(Subj::from_d(&v[0])),
            1 => T_NNM_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NNM_NTag {
    Va(NM),
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_NNM_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_NTag::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_NTag::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NNM_NCod {
    Va(NM),
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_NNM_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_NCod".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_NCod::Va(Subj::from_d(&v[0])),
            1 => T_NNM_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NNM_NCod {
    Va(NM),
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_NNM_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_NCod::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NNM_SUnit {
    Va(NM),
    #[cbor(skip)] Vb,
}
impl Subj for T_NNM_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_SUnit".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_SUnit::Va(Subj::from_d(&v[0])),
            1 => T_NNM_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNM_SNamed {
    Va(NM),
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NNM_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_SNamed".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_SNamed::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_SNamed::Va(Subj::from_d(&v[0])),
            1 => T_NNM_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NNM_SStruct {
    Va(NM),
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_NNM_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_SStruct".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_SStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_SStruct::Va(Subj::from_d(&v[0])),
            1 => T_NNM_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_NNM_SStruct {
    Va(NM),
    #[cbor(skip, as_struct, missing)] Vb,
}
impl Subj for TM_NNM_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNM_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNM_SStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNM_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNM_SStruct::Va(Subj::from_d(&v[0])),
            1 => TM_NNM_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NNM_SMap {
    Va(NM),
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NNM_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNM_SMap".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNM_SMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNM_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNM_SMap::Va(Subj::from_d(&v[0])),
            1 => T_NNM_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNS {
    #[cbor(rename = "n0")] Va(NS),
}
impl Subj for T_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NNS_Unit {
    #[cbor(rename = "n0")] Va(NS),
    Vb,
}
impl Subj for T_NNS_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_Unit".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_Unit::Va(Subj::from_d(&v[0])),
            1 => T_NNS_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_NNS_Unit {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(missing)] Vb,
}
impl Subj for TM_NNS_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_Unit::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNS_UText {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = "")] Vb,
}
impl Subj for T_NNS_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_UText".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_UText::Va(Subj::from_d(&v[0])),
            1 => T_NNS_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NNS_UText {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_NNS_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_UText::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NNS_UNum {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_NNS_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_UNum".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_UNum::Va(Subj::from_d(&v[0])),
            1 => T_NNS_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNS_UNum {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_NNS_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_UNum::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NNS_UStruct {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(as_struct)] Vb,
}
impl Subj for T_NNS_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_UStruct".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_UStruct::Va(Subj::from_d(&v[0])),
            1 => T_NNS_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNS_UStruct {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_NNS_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_UStruct::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NNS_UUnk {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_NNS_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_UUnk".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_UUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_UUnk::Va(Subj::from_d(&v[0])),
            1 => T_NNS_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NNS_UUnk {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_NNS_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_UUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_UUnk::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NNS_Named {
    #[cbor(rename = "n0")] Va(NS),
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NNS_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_Named".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_Named::Va(Subj::from_d(&v[0])),
            1 => T_NNS_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NNS_Named {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NNS_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_Named::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNS_NNum {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_NNS_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_NNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_NNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_NNum::Va(Subj::from_d(&v[0])),
            1 => T_NNS_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_NNS_NNum {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_NNS_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_NNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_NNum::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NNS_NMix {
    #[cbor(rename = "n0")] Va(NS),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_NNS_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_NMix".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_NMix::Va(Subj::from_d(&v[0])),
            1 => T_NNS_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNS_NMix {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_NNS_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_NMix::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NNS_N0 {
    #[cbor(rename = "n0")] Va(NS),
    Vb {  },
}
impl Subj for T_NNS_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_N0".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_N0::Va(Subj::from_d(&v[0])),
            1 => T_NNS_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNS_N0 {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_NNS_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_N0::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NNS_NUnk {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_NNS_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_NUnk".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_NUnk::Va(Subj::from_d(&v[0])),
            1 => T_NNS_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NNS_NUnk {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_NNS_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_NUnk::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NNS_NNM {
    #[cbor(rename = "n0")] Va(NS),
    Vb(NM),
}
impl Subj for T_NNS_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_NNM".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_NNM::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_NNM::Va(Subj::from_d(&v[0])),
            1 => T_NNS_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNS_NNM {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_NNS_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_NNM::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_NNM::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNS_NNS {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_NNS_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_NNS".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_NNS::Va(Subj::from_d(&v[0])),
            1 => T_NNS_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NNS_NNS {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_NNS_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_NNS::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NNS_NMap {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NNS_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_NMap".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_NMap::Va(Subj::from_d(&v[0])),
            1 => T_NNS_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NNS_NMap {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_NNS_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_NMap::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NNS_NTag {
    #[cbor(rename = "n0")] Va(NS),
    Vb(TE),
}
impl Subj for T_NNS_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_NTag".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_NTag::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_NTag::Va(Subj::from_d(&v[0])),
            1 => T_NNS_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NNS_NTag {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_NNS_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_NTag::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_NTag::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NNS_NCod {
    #[cbor(rename = "n0")] Va(NS),
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_NNS_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_NCod".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_NCod::Va(Subj::from_d(&v[0])),
            1 => T_NNS_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NNS_NCod {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_NNS_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_NCod::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NNS_SUnit {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(skip)] Vb,
}
impl Subj for T_NNS_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_SUnit".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_SUnit::Va(Subj::from_d(&v[0])),
            1 => T_NNS_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NNS_SNamed {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NNS_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_SNamed".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_SNamed::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_SNamed::Va(Subj::from_d(&v[0])),
            1 => T_NNS_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NNS_SStruct {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_NNS_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_SStruct".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_SStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_SStruct::Va(Subj::from_d(&v[0])),
            1 => T_NNS_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_NNS_SStruct {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(skip, as_struct, missing)] Vb,
}
impl Subj for TM_NNS_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NNS_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NNS_SStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NNS_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NNS_SStruct::Va(Subj::from_d(&v[0])),
            1 => TM_NNS_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NNS_SMap {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NNS_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NNS_SMap".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NNS_SMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NNS_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NNS_SMap::Va(Subj::from_d(&v[0])),
            1 => T_NNS_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NMap {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
}
impl Subj for T_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NMap_Unit {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    Vb,
}
impl Subj for T_NMap_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_Unit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_Unit::Va(Subj::from_d(&v[0])),
            1 => T_NMap_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_NMap_Unit {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb,
}
impl Subj for TM_NMap_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_Unit::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NMap_UText {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = "")] Vb,
}
impl Subj for T_NMap_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_UText".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_UText::Va(Subj::from_d(&v[0])),
            1 => T_NMap_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NMap_UText {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_NMap_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_UText::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NMap_UNum {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_NMap_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_UNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_UNum::Va(Subj::from_d(&v[0])),
            1 => T_NMap_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMap_UNum {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_NMap_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_UNum::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NMap_UStruct {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(as_struct)] Vb,
}
impl Subj for T_NMap_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_UStruct::Va(Subj::from_d(&v[0])),
            1 => T_NMap_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMap_UStruct {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_NMap_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_UStruct::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NMap_UUnk {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_NMap_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_UUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_UUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_UUnk::Va(Subj::from_d(&v[0])),
            1 => T_NMap_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NMap_UUnk {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_NMap_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_UUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_UUnk::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NMap_Named {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NMap_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_Named".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_Named::Va(Subj::from_d(&v[0])),
            1 => T_NMap_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NMap_Named {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NMap_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_Named::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NMap_NNum {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_NMap_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_NNum".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_NNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_NNum::Va(Subj::from_d(&v[0])),
            1 => T_NMap_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_NMap_NNum {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_NMap_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_NNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_NNum::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NMap_NMix {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_NMap_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_NMix".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_NMix::Va(Subj::from_d(&v[0])),
            1 => T_NMap_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMap_NMix {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_NMap_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_NMix::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NMap_N0 {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    Vb {  },
}
impl Subj for T_NMap_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_N0::Va(Subj::from_d(&v[0])),
            1 => T_NMap_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMap_N0 {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_NMap_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_N0::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NMap_NUnk {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_NMap_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_NUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_NUnk::Va(Subj::from_d(&v[0])),
            1 => T_NMap_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NMap_NUnk {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_NMap_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_NUnk::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NMap_NNM {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    Vb(NM),
}
impl Subj for T_NMap_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_NNM".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_NNM::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_NNM::Va(Subj::from_d(&v[0])),
            1 => T_NMap_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMap_NNM {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_NMap_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_NNM::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_NNM::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NMap_NNS {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_NMap_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_NNS".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_NNS::Va(Subj::from_d(&v[0])),
            1 => T_NMap_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NMap_NNS {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_NMap_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_NNS::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NMap_NMap {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NMap_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_NMap".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_NMap::Va(Subj::from_d(&v[0])),
            1 => T_NMap_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMap_NMap {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_NMap_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_NMap::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NMap_NTag {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    Vb(TE),
}
impl Subj for T_NMap_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_NTag".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_NTag::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_NTag::Va(Subj::from_d(&v[0])),
            1 => T_NMap_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NMap_NTag {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_NMap_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_NTag::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_NTag::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NMap_NCod {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_NMap_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_NCod".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_NCod::Va(Subj::from_d(&v[0])),
            1 => T_NMap_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NMap_NCod {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_NMap_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_NCod::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NMap_SUnit {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(skip)] Vb,
}
impl Subj for T_NMap_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_SUnit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_SUnit::Va(Subj::from_d(&v[0])),
            1 => T_NMap_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NMap_SNamed {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NMap_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_SNamed".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_SNamed::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_SNamed::Va(Subj::from_d(&v[0])),
            1 => T_NMap_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NMap_SNamed {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(skip, missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NMap_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NMap_SNamed".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NMap_SNamed::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NMap_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NMap_SNamed::Va(Subj::from_d(&v[0])),
            1 => TM_NMap_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NMap_SStruct {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_NMap_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_SStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_SStruct::Va(Subj::from_d(&v[0])),
            1 => T_NMap_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NMap_SMap {
    #[cbor(rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NMap_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NMap_SMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NMap_SMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NMap_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NMap_SMap::Va(Subj::from_d(&v[0])),
            1 => T_NMap_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NTag {
    Va(TE),
}
impl Subj for T_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NTag_Unit {
    Va(TE),
    Vb,
}
impl Subj for T_NTag_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_Unit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_Unit::Va(Subj::from_d(&v[0])),
            1 => T_NTag_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_NTag_Unit {
    Va(TE),
    #[cbor(missing)] Vb,
}
impl Subj for TM_NTag_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_Unit::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NTag_UText {
    Va(TE),
    #[cbor(rename = "")] Vb,
}
impl Subj for T_NTag_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_UText".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_UText::Va(Subj::from_d(&v[0])),
            1 => T_NTag_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NTag_UText {
    Va(TE),
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_NTag_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_UText::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NTag_UNum {
    Va(TE),
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_NTag_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_UNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_UNum::Va(Subj::from_d(&v[0])),
            1 => T_NTag_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NTag_UNum {
    Va(TE),
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_NTag_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_UNum::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NTag_UStruct {
    Va(TE),
    #[cbor(as_struct)] Vb,
}
impl Subj for T_NTag_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_UStruct::Va(Subj::from_d(&v[0])),
            1 => T_NTag_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NTag_UStruct {
    Va(TE),
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_NTag_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_UStruct::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NTag_UUnk {
    Va(TE),
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_NTag_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_UUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_UUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_UUnk::Va(Subj::from_d(&v[0])),
            1 => T_NTag_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NTag_UUnk {
    Va(TE),
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_NTag_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_UUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_UUnk::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NTag_Named {
    Va(TE),
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NTag_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_Named".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_Named::Va(Subj::from_d(&v[0])),
            1 => T_NTag_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NTag_Named {
    Va(TE),
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NTag_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_Named::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NTag_NNum {
    Va(TE),
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_NTag_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_NNum".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_NNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_NNum::Va(Subj::from_d(&v[0])),
            1 => T_NTag_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_NTag_NNum {
    Va(TE),
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_NTag_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_NNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_NNum::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NTag_NMix {
    Va(TE),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_NTag_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_NMix".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_NMix::Va(Subj::from_d(&v[0])),
            1 => T_NTag_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NTag_NMix {
    Va(TE),
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_NTag_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_NMix::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NTag_N0 {
    Va(TE),
    Vb {  },
}
impl Subj for T_NTag_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_N0::Va(Subj::from_d(&v[0])),
            1 => T_NTag_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NTag_N0 {
    Va(TE),
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_NTag_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_N0::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NTag_NUnk {
    Va(TE),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_NTag_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_NUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_NUnk::Va(Subj::from_d(&v[0])),
            1 => T_NTag_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NTag_NUnk {
    Va(TE),
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_NTag_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_NUnk::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NTag_NNM {
    Va(TE),
    Vb(NM),
}
impl Subj for T_NTag_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_NNM".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_NNM::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_NNM::Va(Subj::from_d(&v[0])),
            1 => T_NTag_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NTag_NNM {
    Va(TE),
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_NTag_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_NNM::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_NNM::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NTag_NNS {
    Va(TE),
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_NTag_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_NNS".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_NNS::Va(Subj::from_d(&v[0])),
            1 => T_NTag_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NTag_NNS {
    Va(TE),
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_NTag_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_NNS::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NTag_NMap {
    Va(TE),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NTag_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_NMap".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_NMap::Va(Subj::from_d(&v[0])),
            1 => T_NTag_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NTag_NMap {
    Va(TE),
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_NTag_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_NMap::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NTag_NTag {
    Va(TE),
    Vb(TE),
}
impl Subj for T_NTag_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_NTag".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_NTag::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_NTag::Va(Subj::from_d(&v[0])),
            1 => T_NTag_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NTag_NTag {
    Va(TE),
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_NTag_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_NTag::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_NTag::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NTag_NCod {
    Va(TE),
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_NTag_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_NCod".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_NCod::Va(Subj::from_d(&v[0])),
            1 => T_NTag_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NTag_NCod {
    Va(TE),
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_NTag_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_NCod::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NTag_SUnit {
    Va(TE),
    #[cbor(skip)] Vb,
}
impl Subj for T_NTag_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_SUnit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_SUnit::Va(Subj::from_d(&v[0])),
            1 => T_NTag_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NTag_SNamed {
    Va(TE),
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NTag_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_SNamed".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_SNamed::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_SNamed::Va(Subj::from_d(&v[0])),
            1 => T_NTag_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NTag_SNamed {
    Va(TE),
    #[cbor(skip, missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NTag_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NTag_SNamed".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NTag_SNamed::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NTag_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NTag_SNamed::Va(Subj::from_d(&v[0])),
            1 => TM_NTag_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NTag_SStruct {
    Va(TE),
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_NTag_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_SStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_SStruct::Va(Subj::from_d(&v[0])),
            1 => T_NTag_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NTag_SMap {
    Va(TE),
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NTag_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NTag_SMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NTag_SMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NTag_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NTag_SMap::Va(Subj::from_d(&v[0])),
            1 => T_NTag_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NCod {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NCod_Unit {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    Vb,
}
impl Subj for T_NCod_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_Unit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_Unit::Va(Subj::from_d(&v[0])),
            1 => T_NCod_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_NCod_Unit {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(missing)] Vb,
}
impl Subj for TM_NCod_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_Unit::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NCod_UText {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(rename = "")] Vb,
}
impl Subj for T_NCod_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_UText".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_UText::Va(Subj::from_d(&v[0])),
            1 => T_NCod_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NCod_UText {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_NCod_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_UText::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NCod_UNum {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_NCod_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_UNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_UNum::Va(Subj::from_d(&v[0])),
            1 => T_NCod_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NCod_UNum {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_NCod_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_UNum::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NCod_UStruct {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(as_struct)] Vb,
}
impl Subj for T_NCod_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_UStruct::Va(Subj::from_d(&v[0])),
            1 => T_NCod_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NCod_UStruct {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_NCod_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_UStruct::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NCod_UUnk {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_NCod_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_UUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_UUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_UUnk::Va(Subj::from_d(&v[0])),
            1 => T_NCod_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NCod_UUnk {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_NCod_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_UUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_UUnk::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NCod_Named {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NCod_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_Named".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_Named::Va(Subj::from_d(&v[0])),
            1 => T_NCod_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NCod_Named {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NCod_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_Named::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NCod_NNum {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_NCod_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_NNum".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_NNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_NNum::Va(Subj::from_d(&v[0])),
            1 => T_NCod_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_NCod_NNum {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_NCod_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_NNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_NNum::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NCod_NMix {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_NCod_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_NMix".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_NMix::Va(Subj::from_d(&v[0])),
            1 => T_NCod_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NCod_NMix {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_NCod_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_NMix::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NCod_N0 {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    Vb {  },
}
impl Subj for T_NCod_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_N0::Va(Subj::from_d(&v[0])),
            1 => T_NCod_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NCod_N0 {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_NCod_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_N0::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NCod_NUnk {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_NCod_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_NUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_NUnk::Va(Subj::from_d(&v[0])),
            1 => T_NCod_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NCod_NUnk {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_NCod_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_NUnk::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NCod_NNM {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    Vb(NM),
}
impl Subj for T_NCod_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_NNM".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_NNM::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_NNM::Va(Subj::from_d(&v[0])),
            1 => T_NCod_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NCod_NNM {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_NCod_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_NNM::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_NNM::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NCod_NNS {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_NCod_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_NNS".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_NNS::Va(Subj::from_d(&v[0])),
            1 => T_NCod_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NCod_NNS {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_NCod_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_NNS::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NCod_NMap {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NCod_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_NMap".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_NMap::Va(Subj::from_d(&v[0])),
            1 => T_NCod_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NCod_NMap {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_NCod_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_NMap::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NCod_NTag {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    Vb(TE),
}
impl Subj for T_NCod_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_NTag".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_NTag::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_NTag::Va(Subj::from_d(&v[0])),
            1 => T_NCod_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_NCod_NTag {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_NCod_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_NTag::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_NTag::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_NCod_NCod {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_NCod_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_NCod".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_NCod::Va(Subj::from_d(&v[0])),
            1 => T_NCod_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_NCod_NCod {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_NCod_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_NCod::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_NCod_SUnit {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(skip)] Vb,
}
impl Subj for T_NCod_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_SUnit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_SUnit::Va(Subj::from_d(&v[0])),
            1 => T_NCod_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_NCod_SNamed {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_NCod_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_SNamed".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_SNamed::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_SNamed::Va(Subj::from_d(&v[0])),
            1 => T_NCod_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_NCod_SNamed {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(skip, missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_NCod_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_NCod_SNamed".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_NCod_SNamed::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_NCod_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_NCod_SNamed::Va(Subj::from_d(&v[0])),
            1 => TM_NCod_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_NCod_SStruct {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_NCod_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_SStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_SStruct::Va(Subj::from_d(&v[0])),
            1 => T_NCod_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_NCod_SMap {
    Va(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_NCod_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_NCod_SMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_NCod_SMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_NCod_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_NCod_SMap::Va(Subj::from_d(&v[0])),
            1 => T_NCod_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SUnit {
    #[cbor(skip)] Va,
}
impl Subj for T_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SUnit_Unit {
    #[cbor(skip)] Va,
    Vb,
}
impl Subj for T_SUnit_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_Unit".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_Unit::Va => D::Var(0, vec![]),
            T_SUnit_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_Unit::Va,
            1 => T_SUnit_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_SUnit_Unit {
    #[cbor(skip)] Va,
    #[cbor(missing)] Vb,
}
impl Subj for TM_SUnit_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_Unit::Va => D::Var(0, vec![]),
            TM_SUnit_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_Unit::Va,
            1 => TM_SUnit_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SUnit_UText {
    #[cbor(skip)] Va,
    #[cbor(rename = "")] Vb,
}
impl Subj for T_SUnit_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_UText".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_UText::Va => D::Var(0, vec![]),
            T_SUnit_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_UText::Va,
            1 => T_SUnit_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SUnit_UText {
    #[cbor(skip)] Va,
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_SUnit_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_UText::Va => D::Var(0, vec![]),
            TM_SUnit_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_UText::Va,
            1 => TM_SUnit_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SUnit_UNum {
    #[cbor(skip)] Va,
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_SUnit_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_UNum".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_UNum::Va => D::Var(0, vec![]),
            T_SUnit_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_UNum::Va,
            1 => T_SUnit_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SUnit_UNum {
    #[cbor(skip)] Va,
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_SUnit_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_UNum::Va => D::Var(0, vec![]),
            TM_SUnit_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_UNum::Va,
            1 => TM_SUnit_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SUnit_UStruct {
    #[cbor(skip)] Va,
    #[cbor(as_struct)] Vb,
}
impl Subj for T_SUnit_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_UStruct".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_UStruct::Va => D::Var(0, vec![]),
            T_SUnit_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_UStruct::Va,
            1 => T_SUnit_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SUnit_UStruct {
    #[cbor(skip)] Va,
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_SUnit_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_UStruct::Va => D::Var(0, vec![]),
            TM_SUnit_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_UStruct::Va,
            1 => TM_SUnit_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SUnit_UUnk {
    #[cbor(skip)] Va,
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_SUnit_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_UUnk".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_UUnk::Va => D::Var(0, vec![]),
            T_SUnit_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_UUnk::Va,
            1 => T_SUnit_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SUnit_UUnk {
    #[cbor(skip)] Va,
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_SUnit_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_UUnk::Va => D::Var(0, vec![]),
            TM_SUnit_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_UUnk::Va,
            1 => TM_SUnit_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SUnit_Named {
    #[cbor(skip)] Va,
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_SUnit_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_Named".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_Named::Va => D::Var(0, vec![]),
            T_SUnit_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_Named::Va,
            1 => T_SUnit_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SUnit_Named {
    #[cbor(skip)] Va,
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_SUnit_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_Named::Va => D::Var(0, vec![]),
            TM_SUnit_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_Named::Va,
            1 => TM_SUnit_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SUnit_NNum {
    #[cbor(skip)] Va,
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_SUnit_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_NNum".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_NNum::Va => D::Var(0, vec![]),
            T_SUnit_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_NNum::Va,
            1 => T_SUnit_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_SUnit_NNum {
    #[cbor(skip)] Va,
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_SUnit_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_NNum::Va => D::Var(0, vec![]),
            TM_SUnit_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_NNum::Va,
            1 => TM_SUnit_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SUnit_NMix {
    #[cbor(skip)] Va,
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_SUnit_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_NMix".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_NMix::Va => D::Var(0, vec![]),
            T_SUnit_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_NMix::Va,
            1 => T_SUnit_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SUnit_NMix {
    #[cbor(skip)] Va,
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_SUnit_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_NMix::Va => D::Var(0, vec![]),
            TM_SUnit_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_NMix::Va,
            1 => TM_SUnit_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SUnit_N0 {
    #[cbor(skip)] Va,
    Vb {  },
}
impl Subj for T_SUnit_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_N0".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_N0::Va => D::Var(0, vec![]),
            T_SUnit_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_N0::Va,
            1 => T_SUnit_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SUnit_N0 {
    #[cbor(skip)] Va,
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_SUnit_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_N0::Va => D::Var(0, vec![]),
            TM_SUnit_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_N0::Va,
            1 => TM_SUnit_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SUnit_NUnk {
    #[cbor(skip)] Va,
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_SUnit_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_NUnk".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_NUnk::Va => D::Var(0, vec![]),
            T_SUnit_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_NUnk::Va,
            1 => T_SUnit_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SUnit_NUnk {
    #[cbor(skip)] Va,
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_SUnit_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_NUnk::Va => D::Var(0, vec![]),
            TM_SUnit_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_NUnk::Va,
            1 => TM_SUnit_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SUnit_NNM {
    #[cbor(skip)] Va,
    Vb(NM),
}
impl Subj for T_SUnit_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_NNM::Va => D::Var(0, vec![]),
            T_SUnit_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_NNM::Va,
            1 => T_SUnit_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SUnit_NNM {
    #[cbor(skip)] Va,
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_SUnit_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_NNM::Va => D::Var(0, vec![]),
            TM_SUnit_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_NNM::Va,
            1 => TM_SUnit_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SUnit_NNS {
    #[cbor(skip)] Va,
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_SUnit_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_NNS::Va => D::Var(0, vec![]),
            T_SUnit_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_NNS::Va,
            1 => T_SUnit_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SUnit_NNS {
    #[cbor(skip)] Va,
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_SUnit_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_NNS::Va => D::Var(0, vec![]),
            TM_SUnit_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_NNS::Va,
            1 => TM_SUnit_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SUnit_NMap {
    #[cbor(skip)] Va,
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_SUnit_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_NMap".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_NMap::Va => D::Var(0, vec![]),
            T_SUnit_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_NMap::Va,
            1 => T_SUnit_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SUnit_NMap {
    #[cbor(skip)] Va,
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_SUnit_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_NMap::Va => D::Var(0, vec![]),
            TM_SUnit_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_NMap::Va,
            1 => TM_SUnit_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SUnit_NTag {
    #[cbor(skip)] Va,
    Vb(TE),
}
impl Subj for T_SUnit_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_NTag".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_NTag::Va => D::Var(0, vec![]),
            T_SUnit_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_NTag::Va,
            1 => T_SUnit_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SUnit_NTag {
    #[cbor(skip)] Va,
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_SUnit_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_NTag::Va => D::Var(0, vec![]),
            TM_SUnit_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_NTag::Va,
            1 => TM_SUnit_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SUnit_NCod {
    #[cbor(skip)] Va,
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_SUnit_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_NCod".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_NCod::Va => D::Var(0, vec![]),
            T_SUnit_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_NCod::Va,
            1 => T_SUnit_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SUnit_NCod {
    #[cbor(skip)] Va,
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_SUnit_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_NCod::Va => D::Var(0, vec![]),
            TM_SUnit_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_NCod::Va,
            1 => TM_SUnit_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SUnit_SUnit {
    #[cbor(skip)] Va,
    #[cbor(skip)] Vb,
}
impl Subj for T_SUnit_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_SUnit".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_SUnit::Va => D::Var(0, vec![]),
            T_SUnit_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_SUnit::Va,
            1 => T_SUnit_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SUnit_SUnit {
    #[cbor(skip)] Va,
    #[cbor(skip, missing)] Vb,
}
impl Subj for TM_SUnit_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SUnit_SUnit".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SUnit_SUnit::Va => D::Var(0, vec![]),
            TM_SUnit_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SUnit_SUnit::Va,
            1 => TM_SUnit_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SUnit_SNamed {
    #[cbor(skip)] Va,
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_SUnit_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_SNamed".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_SNamed::Va => D::Var(0, vec![]),
            T_SUnit_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_SNamed::Va,
            1 => T_SUnit_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SUnit_SStruct {
    #[cbor(skip)] Va,
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_SUnit_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_SStruct".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_SStruct::Va => D::Var(0, vec![]),
            T_SUnit_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_SStruct::Va,
            1 => T_SUnit_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SUnit_SMap {
    #[cbor(skip)] Va,
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_SUnit_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SUnit_SMap".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SUnit_SMap::Va => D::Var(0, vec![]),
            T_SUnit_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SUnit_SMap::Va,
            1 => T_SUnit_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SNamed {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SNamed_Unit {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb,
}
impl Subj for T_SNamed_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_Unit::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_Unit::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_SNamed_Unit {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb,
}
impl Subj for TM_SNamed_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_Unit::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_Unit::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SNamed_UText {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = "")] Vb,
}
impl Subj for T_SNamed_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_UText".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_UText::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_UText::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SNamed_UText {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_SNamed_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_UText::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_UText::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SNamed_UNum {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_SNamed_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_UNum::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_UNum::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SNamed_UNum {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_SNamed_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_UNum::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_UNum::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SNamed_UStruct {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(as_struct)] Vb,
}
impl Subj for T_SNamed_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_UStruct".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_UStruct::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_UStruct::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SNamed_UStruct {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_SNamed_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_UStruct::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_UStruct::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SNamed_UUnk {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_SNamed_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_UUnk::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_UUnk::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SNamed_UUnk {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_SNamed_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_UUnk::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_UUnk::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SNamed_Named {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_SNamed_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_Named".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_Named::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_Named::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SNamed_Named {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_SNamed_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_Named::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_Named::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SNamed_NNum {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_SNamed_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_NNum::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_NNum::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_SNamed_NNum {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_SNamed_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_NNum::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_NNum::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SNamed_NMix {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_SNamed_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_NMix::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_NMix::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SNamed_NMix {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_SNamed_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_NMix::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_NMix::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SNamed_N0 {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb {  },
}
impl Subj for T_SNamed_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_N0".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_N0::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_N0::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SNamed_N0 {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_SNamed_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_N0::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_N0::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SNamed_NUnk {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_SNamed_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_NUnk::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_NUnk::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SNamed_NUnk {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_SNamed_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_NUnk::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_NUnk::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SNamed_NNM {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb(NM),
}
impl Subj for T_SNamed_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_NNM".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_NNM::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_NNM::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SNamed_NNM {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_SNamed_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_NNM::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_NNM::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SNamed_NNS {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_SNamed_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_NNS".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_NNS::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_NNS::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SNamed_NNS {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_SNamed_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_NNS::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_NNS::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SNamed_NMap {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_SNamed_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_NMap::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_NMap::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SNamed_NMap {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_SNamed_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_NMap::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_NMap::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SNamed_NTag {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb(TE),
}
impl Subj for T_SNamed_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_NTag::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_NTag::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SNamed_NTag {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_SNamed_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_NTag::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_NTag::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SNamed_NCod {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_SNamed_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_NCod::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_NCod::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SNamed_NCod {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_SNamed_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_NCod::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_NCod::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SNamed_SUnit {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(skip)] Vb,
}
impl Subj for T_SNamed_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_SUnit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_SUnit::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_SUnit::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SNamed_SNamed {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_SNamed_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_SNamed".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_SNamed::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_SNamed::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SNamed_SStruct {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_SNamed_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_SStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_SStruct::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_SStruct::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SNamed_SMap {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_SNamed_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SNamed_SMap".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SNamed_SMap::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T_SNamed_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SNamed_SMap::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T_SNamed_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SNamed_SMap {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(skip, rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_SNamed_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SNamed_SMap".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SNamed_SMap::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            TM_SNamed_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SNamed_SMap::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => TM_SNamed_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SStruct {
    #[cbor(skip, as_struct)] Va,
}
impl Subj for T_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SStruct_Unit {
    #[cbor(skip, as_struct)] Va,
    Vb,
}
impl Subj for T_SStruct_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_Unit".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_Unit::Va => D::Var(0, vec![]),
            T_SStruct_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_Unit::Va,
            1 => T_SStruct_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_SStruct_Unit {
    #[cbor(skip, as_struct)] Va,
    #[cbor(missing)] Vb,
}
impl Subj for TM_SStruct_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_Unit::Va => D::Var(0, vec![]),
            TM_SStruct_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_Unit::Va,
            1 => TM_SStruct_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SStruct_UText {
    #[cbor(skip, as_struct)] Va,
    #[cbor(rename = "")] Vb,
}
impl Subj for T_SStruct_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_UText::Va => D::Var(0, vec![]),
            T_SStruct_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_UText::Va,
            1 => T_SStruct_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SStruct_UText {
    #[cbor(skip, as_struct)] Va,
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_SStruct_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_UText::Va => D::Var(0, vec![]),
            TM_SStruct_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_UText::Va,
            1 => TM_SStruct_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SStruct_UNum {
    #[cbor(skip, as_struct)] Va,
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_SStruct_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_UNum".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_UNum::Va => D::Var(0, vec![]),
            T_SStruct_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_UNum::Va,
            1 => T_SStruct_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SStruct_UNum {
    #[cbor(skip, as_struct)] Va,
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_SStruct_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_UNum::Va => D::Var(0, vec![]),
            TM_SStruct_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_UNum::Va,
            1 => TM_SStruct_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SStruct_UStruct {
    #[cbor(skip, as_struct)] Va,
    #[cbor(as_struct)] Vb,
}
impl Subj for T_SStruct_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_UStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_UStruct::Va => D::Var(0, vec![]),
            T_SStruct_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_UStruct::Va,
            1 => T_SStruct_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SStruct_UStruct {
    #[cbor(skip, as_struct)] Va,
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_SStruct_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_UStruct::Va => D::Var(0, vec![]),
            TM_SStruct_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_UStruct::Va,
            1 => TM_SStruct_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SStruct_UUnk {
    #[cbor(skip, as_struct)] Va,
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_SStruct_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_UUnk".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_UUnk::Va => D::Var(0, vec![]),
            T_SStruct_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_UUnk::Va,
            1 => T_SStruct_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SStruct_UUnk {
    #[cbor(skip, as_struct)] Va,
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_SStruct_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_UUnk::Va => D::Var(0, vec![]),
            TM_SStruct_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_UUnk::Va,
            1 => TM_SStruct_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SStruct_Named {
    #[cbor(skip, as_struct)] Va,
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_SStruct_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_Named::Va => D::Var(0, vec![]),
            T_SStruct_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_Named::Va,
            1 => T_SStruct_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SStruct_Named {
    #[cbor(skip, as_struct)] Va,
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_SStruct_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_Named::Va => D::Var(0, vec![]),
            TM_SStruct_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_Named::Va,
            1 => TM_SStruct_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SStruct_NNum {
    #[cbor(skip, as_struct)] Va,
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_SStruct_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_NNum".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_NNum::Va => D::Var(0, vec![]),
            T_SStruct_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_NNum::Va,
            1 => T_SStruct_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_SStruct_NNum {
    #[cbor(skip, as_struct)] Va,
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_SStruct_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_NNum::Va => D::Var(0, vec![]),
            TM_SStruct_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_NNum::Va,
            1 => TM_SStruct_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SStruct_NMix {
    #[cbor(skip, as_struct)] Va,
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_SStruct_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_NMix".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_NMix::Va => D::Var(0, vec![]),
            T_SStruct_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_NMix::Va,
            1 => T_SStruct_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SStruct_NMix {
    #[cbor(skip, as_struct)] Va,
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_SStruct_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_NMix::Va => D::Var(0, vec![]),
            TM_SStruct_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_NMix::Va,
            1 => TM_SStruct_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SStruct_N0 {
    #[cbor(skip, as_struct)] Va,
    Vb {  },
}
impl Subj for T_SStruct_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_N0".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_N0::Va => D::Var(0, vec![]),
            T_SStruct_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_N0::Va,
            1 => T_SStruct_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SStruct_N0 {
    #[cbor(skip, as_struct)] Va,
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_SStruct_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_N0::Va => D::Var(0, vec![]),
            TM_SStruct_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_N0::Va,
            1 => TM_SStruct_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SStruct_NUnk {
    #[cbor(skip, as_struct)] Va,
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_SStruct_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_NUnk".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_NUnk::Va => D::Var(0, vec![]),
            T_SStruct_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_NUnk::Va,
            1 => T_SStruct_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SStruct_NUnk {
    #[cbor(skip, as_struct)] Va,
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_SStruct_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_NUnk::Va => D::Var(0, vec![]),
            TM_SStruct_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_NUnk::Va,
            1 => TM_SStruct_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SStruct_NNM {
    #[cbor(skip, as_struct)] Va,
    Vb(NM),
}
impl Subj for T_SStruct_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_NNM".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_NNM::Va => D::Var(0, vec![]),
            T_SStruct_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_NNM::Va,
            1 => T_SStruct_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SStruct_NNM {
    #[cbor(skip, as_struct)] Va,
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_SStruct_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_NNM::Va => D::Var(0, vec![]),
            TM_SStruct_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_NNM::Va,
            1 => TM_SStruct_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SStruct_NNS {
    #[cbor(skip, as_struct)] Va,
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_SStruct_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_NNS".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_NNS::Va => D::Var(0, vec![]),
            T_SStruct_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_NNS::Va,
            1 => T_SStruct_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SStruct_NNS {
    #[cbor(skip, as_struct)] Va,
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_SStruct_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_NNS::Va => D::Var(0, vec![]),
            TM_SStruct_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_NNS::Va,
            1 => TM_SStruct_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SStruct_NMap {
    #[cbor(skip, as_struct)] Va,
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_SStruct_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_NMap".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_NMap::Va => D::Var(0, vec![]),
            T_SStruct_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_NMap::Va,
            1 => T_SStruct_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SStruct_NMap {
    #[cbor(skip, as_struct)] Va,
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_SStruct_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_NMap::Va => D::Var(0, vec![]),
            TM_SStruct_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_NMap::Va,
            1 => TM_SStruct_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SStruct_NTag {
    #[cbor(skip, as_struct)] Va,
    Vb(TE),
}
impl Subj for T_SStruct_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_NTag".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_NTag::Va => D::Var(0, vec![]),
            T_SStruct_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_NTag::Va,
            1 => T_SStruct_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SStruct_NTag {
    #[cbor(skip, as_struct)] Va,
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_SStruct_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_NTag::Va => D::Var(0, vec![]),
            TM_SStruct_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_NTag::Va,
            1 => TM_SStruct_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SStruct_NCod {
    #[cbor(skip, as_struct)] Va,
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_SStruct_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_NCod".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_NCod::Va => D::Var(0, vec![]),
            T_SStruct_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_NCod::Va,
            1 => T_SStruct_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SStruct_NCod {
    #[cbor(skip, as_struct)] Va,
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_SStruct_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_NCod::Va => D::Var(0, vec![]),
            TM_SStruct_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_NCod::Va,
            1 => TM_SStruct_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SStruct_SUnit {
    #[cbor(skip, as_struct)] Va,
    #[cbor(skip)] Vb,
}
impl Subj for T_SStruct_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_SUnit".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_SUnit::Va => D::Var(0, vec![]),
            T_SStruct_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_SUnit::Va,
            1 => T_SStruct_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SStruct_SNamed {
    #[cbor(skip, as_struct)] Va,
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_SStruct_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_SNamed".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_SNamed::Va => D::Var(0, vec![]),
            T_SStruct_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_SNamed::Va,
            1 => T_SStruct_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SStruct_SStruct {
    #[cbor(skip, as_struct)] Va,
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_SStruct_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_SStruct".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_SStruct::Va => D::Var(0, vec![]),
            T_SStruct_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_SStruct::Va,
            1 => T_SStruct_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_SStruct_SStruct {
    #[cbor(skip, as_struct)] Va,
    #[cbor(skip, as_struct, missing)] Vb,
}
impl Subj for TM_SStruct_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SStruct_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SStruct_SStruct::Va => D::Var(0, vec![]),
            TM_SStruct_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SStruct_SStruct::Va,
            1 => TM_SStruct_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SStruct_SMap {
    #[cbor(skip, as_struct)] Va,
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_SStruct_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SStruct_SMap".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SStruct_SMap::Va => D::Var(0, vec![]),
            T_SStruct_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SStruct_SMap::Va,
            1 => T_SStruct_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SMap {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
}
impl Subj for T_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SMap_Unit {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    Vb,
}
impl Subj for T_SMap_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_Unit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_Unit::Va(Subj::from_d(&v[0])),
            1 => T_SMap_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum TM_SMap_Unit {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb,
}
impl Subj for TM_SMap_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_Unit".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_Unit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_Unit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_Unit::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_Unit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SMap_UText {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = "")] Vb,
}
impl Subj for T_SMap_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_UText".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_UText::Va(Subj::from_d(&v[0])),
            1 => T_SMap_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SMap_UText {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = "", missing)] Vb,
}
impl Subj for TM_SMap_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_UText".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_UText::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_UText::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_UText::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_UText::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SMap_UNum {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = 300)] Vb,
}
impl Subj for T_SMap_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_UNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_UNum::Va(Subj::from_d(&v[0])),
            1 => T_SMap_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SMap_UNum {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = 300, missing)] Vb,
}
impl Subj for TM_SMap_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_UNum".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_UNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_UNum::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_UNum::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_UNum::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SMap_UStruct {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(as_struct)] Vb,
}
impl Subj for T_SMap_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_UStruct::Va(Subj::from_d(&v[0])),
            1 => T_SMap_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SMap_UStruct {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(as_struct, missing)] Vb,
}
impl Subj for TM_SMap_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_UStruct".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_UStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_UStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_UStruct::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_UStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SMap_UUnk {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(allow_unknown)] Vb,
}
impl Subj for T_SMap_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_UUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_UUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_UUnk::Va(Subj::from_d(&v[0])),
            1 => T_SMap_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SMap_UUnk {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(allow_unknown, missing)] Vb,
}
impl Subj for TM_SMap_UUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_UUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_UUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_UUnk::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_UUnk::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_UUnk::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SMap_Named {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_SMap_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_Named".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_Named::Va(Subj::from_d(&v[0])),
            1 => T_SMap_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SMap_Named {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_SMap_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_Named".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_Named::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_Named::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_Named::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_Named::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SMap_NNum {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T_SMap_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_NNum".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_NNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_NNum::Va(Subj::from_d(&v[0])),
            1 => T_SMap_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum TM_SMap_NNum {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for TM_SMap_NNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_NNum".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_NNum::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_NNum::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_NNum::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_NNum::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SMap_NMix {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T_SMap_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_NMix".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_NMix::Va(Subj::from_d(&v[0])),
            1 => T_SMap_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SMap_NMix {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for TM_SMap_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_NMix".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_NMix::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_NMix::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_NMix::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_NMix::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SMap_N0 {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    Vb {  },
}
impl Subj for T_SMap_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_N0::Va(Subj::from_d(&v[0])),
            1 => T_SMap_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SMap_N0 {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb {  },
}
impl Subj for TM_SMap_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_N0".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_N0::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_N0::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_N0::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_N0::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SMap_NUnk {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T_SMap_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_NUnk".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_NUnk::Va(Subj::from_d(&v[0])),
            1 => T_SMap_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SMap_NUnk {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(allow_unknown, missing)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for TM_SMap_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_NUnk".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_NUnk::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_NUnk::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_NUnk::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_NUnk::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SMap_NNM {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    Vb(NM),
}
impl Subj for T_SMap_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_NNM".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_NNM::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_NNM::Va(Subj::from_d(&v[0])),
            1 => T_SMap_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SMap_NNM {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb(NM),
}
impl Subj for TM_SMap_NNM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_NNM".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_NNM::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_NNM::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_NNM::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_NNM::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SMap_NNS {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = "")] Vb(NS),
}
impl Subj for T_SMap_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_NNS".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_NNS::Va(Subj::from_d(&v[0])),
            1 => T_SMap_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SMap_NNS {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = "", missing)] Vb(NS),
}
impl Subj for TM_SMap_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_NNS".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_NNS::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_NNS::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_NNS::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SMap_NMap {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_SMap_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_NMap".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_NMap::Va(Subj::from_d(&v[0])),
            1 => T_SMap_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SMap_NMap {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
}
impl Subj for TM_SMap_NMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_NMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_NMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_NMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_NMap::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_NMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SMap_NTag {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    Vb(TE),
}
impl Subj for T_SMap_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_NTag".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_NTag::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_NTag::Va(Subj::from_d(&v[0])),
            1 => T_SMap_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum TM_SMap_NTag {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb(TE),
}
impl Subj for TM_SMap_NTag {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_NTag".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_NTag::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_NTag::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_NTag::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_NTag::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T_SMap_NCod {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for T_SMap_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_NCod".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_NCod::Va(Subj::from_d(&v[0])),
            1 => T_SMap_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum TM_SMap_NCod {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(missing)] Vb(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] u8),
}
impl Subj for TM_SMap_NCod {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_NCod".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(under())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_NCod::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_NCod::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_NCod::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_NCod::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T_SMap_SUnit {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(skip)] Vb,
}
impl Subj for T_SMap_SUnit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_SUnit".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_SUnit::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_SUnit::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_SUnit::Va(Subj::from_d(&v[0])),
            1 => T_SMap_SUnit::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T_SMap_SNamed {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(skip)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T_SMap_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_SNamed".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_SNamed::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_SNamed::Va(Subj::from_d(&v[0])),
            1 => T_SMap_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum TM_SMap_SNamed {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(skip, missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for TM_SMap_SNamed {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "TM_SMap_SNamed".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            TM_SMap_SNamed::Va(x0) => D::Var(0, vec![x0.to_d()]),
            TM_SMap_SNamed::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => TM_SMap_SNamed::Va(Subj::from_d(&v[0])),
            1 => TM_SMap_SNamed::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T_SMap_SStruct {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(skip, as_struct)] Vb,
}
impl Subj for T_SMap_SStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_SStruct".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_SStruct::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_SStruct::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_SStruct::Va(Subj::from_d(&v[0])),
            1 => T_SMap_SStruct::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T_SMap_SMap {
    #[cbor(skip, rename = 7)] Va(BTreeMap<String, u8>),
    #[cbor(skip, rename = 300)] Vb(BTreeMap<String, u8>),
}
impl Subj for T_SMap_SMap {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T_SMap_SMap".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T_SMap_SMap::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T_SMap_SMap::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T_SMap_SMap::Va(Subj::from_d(&v[0])),
            1 => T_SMap_SMap::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3_0_v {
    Va,
    Vb(NM),
    #[cbor(allow_unknown)] Vc { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T3_0_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_0_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_0_v::Va => D::Var(0, vec![]),
            T3_0_v::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_0_v::Vc { m: x0, l: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_0_v::Va,
            1 => T3_0_v::Vb(Subj::from_d(&v[0])),
            2 => T3_0_v::Vc { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3M_0_v {
    Va,
    #[cbor(missing)] Vb(NM),
    #[cbor(allow_unknown)] Vc { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T3M_0_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_0_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_0_v::Va => D::Var(0, vec![]),
            T3M_0_v::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_0_v::Vc { m: x0, l: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_0_v::Va,
            1 => T3M_0_v::Vb(Subj::from_d(&v[0])),
            2 => T3M_0_v::Vc { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3_0_Num {
    Va,
    Vb(NM),
    #[cbor(allow_unknown)] Vc { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T3_0_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_0_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_0_Num::Va => D::Var(0, vec![]),
            T3_0_Num::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_0_Num::Vc { m: x0, l: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_0_Num::Va,
            1 => T3_0_Num::Vb(Subj::from_d(&v[0])),
            2 => T3_0_Num::Vc { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3M_0_Num {
    #[cbor(missing)] Va,
    Vb(NM),
    #[cbor(allow_unknown)] Vc { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T3M_0_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_0_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_0_Num::Va => D::Var(0, vec![]),
            T3M_0_Num::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_0_Num::Vc { m: x0, l: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_0_Num::Va,
            1 => T3M_0_Num::Vb(Subj::from_d(&v[0])),
            2 => T3M_0_Num::Vc { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3_0_Emp {
    Va,
    Vb(NM),
    #[cbor(allow_unknown)] Vc { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T3_0_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_0_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_0_Emp::Va => D::Var(0, vec![]),
            T3_0_Emp::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_0_Emp::Vc { m: x0, l: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_0_Emp::Va,
            1 => T3_0_Emp::Vb(Subj::from_d(&v[0])),
            2 => T3_0_Emp::Vc { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3M_0_Emp {
    #[cbor(missing)] Va,
    Vb(NM),
    #[cbor(allow_unknown)] Vc { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T3M_0_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_0_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_0_Emp::Va => D::Var(0, vec![]),
            T3M_0_Emp::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_0_Emp::Vc { m: x0, l: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_0_Emp::Va,
            1 => T3M_0_Emp::Vb(Subj::from_d(&v[0])),
            2 => T3M_0_Emp::Vc { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3_0_Long {
    Va,
    Vb(NM),
    #[cbor(allow_unknown)] Vc { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T3_0_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_0_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_0_Long::Va => D::Var(0, vec![]),
            T3_0_Long::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_0_Long::Vc { m: x0, l: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_0_Long::Va,
            1 => T3_0_Long::Vb(Subj::from_d(&v[0])),
            2 => T3_0_Long::Vc { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3M_0_Long {
    Va,
    #[cbor(missing)] Vb(NM),
    #[cbor(allow_unknown)] Vc { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T3M_0_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_0_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_0_Long::Va => D::Var(0, vec![]),
            T3M_0_Long::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_0_Long::Vc { m: x0, l: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_0_Long::Va,
            1 => T3M_0_Long::Vb(Subj::from_d(&v[0])),
            2 => T3M_0_Long::Vc { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3_0_AB {
    Va,
    Vb(NM),
    #[cbor(allow_unknown)] Vc { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T3_0_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_0_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_0_AB::Va => D::Var(0, vec![]),
            T3_0_AB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_0_AB::Vc { m: x0, l: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_0_AB::Va,
            1 => T3_0_AB::Vb(Subj::from_d(&v[0])),
            2 => T3_0_AB::Vc { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3M_0_AB {
    Va,
    Vb(NM),
    #[cbor(allow_unknown, missing)] Vc { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for T3M_0_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_0_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NM as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_0_AB::Va => D::Var(0, vec![]),
            T3M_0_AB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_0_AB::Vc { m: x0, l: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_0_AB::Va,
            1 => T3M_0_AB::Vb(Subj::from_d(&v[0])),
            2 => T3M_0_AB::Vc { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3_1_v {
    Va(TE),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
    Vc { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T3_1_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_1_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_1_v::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3_1_v::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_1_v::Vc { x: x0, y: x1, z: x2 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_1_v::Va(Subj::from_d(&v[0])),
            1 => T3_1_v::Vb(Subj::from_d(&v[0])),
            2 => T3_1_v::Vc { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3M_1_v {
    Va(TE),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
    #[cbor(missing)] Vc { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T3M_1_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_1_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_1_v::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3M_1_v::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_1_v::Vc { x: x0, y: x1, z: x2 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_1_v::Va(Subj::from_d(&v[0])),
            1 => T3M_1_v::Vb(Subj::from_d(&v[0])),
            2 => T3M_1_v::Vc { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3_1_Num {
    Va(TE),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
    Vc { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T3_1_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_1_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_1_Num::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3_1_Num::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_1_Num::Vc { x: x0, y: x1, z: x2 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_1_Num::Va(Subj::from_d(&v[0])),
            1 => T3_1_Num::Vb(Subj::from_d(&v[0])),
            2 => T3_1_Num::Vc { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3M_1_Num {
    Va(TE),
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
    Vc { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T3M_1_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_1_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_1_Num::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3M_1_Num::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_1_Num::Vc { x: x0, y: x1, z: x2 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_1_Num::Va(Subj::from_d(&v[0])),
            1 => T3M_1_Num::Vb(Subj::from_d(&v[0])),
            2 => T3M_1_Num::Vc { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3_1_Emp {
    Va(TE),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
    Vc { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T3_1_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_1_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_1_Emp::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3_1_Emp::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_1_Emp::Vc { x: x0, y: x1, z: x2 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_1_Emp::Va(Subj::from_d(&v[0])),
            1 => T3_1_Emp::Vb(Subj::from_d(&v[0])),
            2 => T3_1_Emp::Vc { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3M_1_Emp {
    Va(TE),
    #[cbor(rename = 300, missing)] Vb(BTreeMap<String, u8>),
    Vc { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T3M_1_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_1_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_1_Emp::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3M_1_Emp::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_1_Emp::Vc { x: x0, y: x1, z: x2 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_1_Emp::Va(Subj::from_d(&v[0])),
            1 => T3M_1_Emp::Vb(Subj::from_d(&v[0])),
            2 => T3M_1_Emp::Vc { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3_1_Long {
    Va(TE),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
    Vc { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T3_1_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_1_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_1_Long::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3_1_Long::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_1_Long::Vc { x: x0, y: x1, z: x2 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_1_Long::Va(Subj::from_d(&v[0])),
            1 => T3_1_Long::Vb(Subj::from_d(&v[0])),
            2 => T3_1_Long::Vc { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3M_1_Long {
    Va(TE),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
    #[cbor(missing)] Vc { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T3M_1_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_1_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_1_Long::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3M_1_Long::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_1_Long::Vc { x: x0, y: x1, z: x2 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_1_Long::Va(Subj::from_d(&v[0])),
            1 => T3M_1_Long::Vb(Subj::from_d(&v[0])),
            2 => T3M_1_Long::Vc { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3_1_AB {
    Va(TE),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
    Vc { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T3_1_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_1_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_1_AB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3_1_AB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_1_AB::Vc { x: x0, y: x1, z: x2 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_1_AB::Va(Subj::from_d(&v[0])),
            1 => T3_1_AB::Vb(Subj::from_d(&v[0])),
            2 => T3_1_AB::Vc { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3M_1_AB {
    #[cbor(missing)] Va(TE),
    #[cbor(rename = 300)] Vb(BTreeMap<String, u8>),
    Vc { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for T3M_1_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_1_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <TE as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_1_AB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3M_1_AB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_1_AB::Vc { x: x0, y: x1, z: x2 } => D::Var(2, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_1_AB::Va(Subj::from_d(&v[0])),
            1 => T3M_1_AB::Vb(Subj::from_d(&v[0])),
            2 => T3M_1_AB::Vc { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3_2_v {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 24)] Vc,
}
impl Subj for T3_2_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_2_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_2_v::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_2_v::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_2_v::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_2_v::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3_2_v::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3_2_v::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3M_2_v {
    #[cbor(skip, missing)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 24)] Vc,
}
impl Subj for T3M_2_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_2_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_2_v::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_2_v::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_2_v::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_2_v::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3M_2_v::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3M_2_v::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3_2_Num {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 24)] Vc,
}
impl Subj for T3_2_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_2_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_2_Num::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_2_Num::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_2_Num::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_2_Num::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3_2_Num::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3_2_Num::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3M_2_Num {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 24, missing)] Vc,
}
impl Subj for T3M_2_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_2_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_2_Num::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_2_Num::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_2_Num::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_2_Num::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3M_2_Num::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3M_2_Num::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3_2_Emp {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 24)] Vc,
}
impl Subj for T3_2_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_2_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_2_Emp::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_2_Emp::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_2_Emp::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_2_Emp::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3_2_Emp::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3_2_Emp::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3M_2_Emp {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 24, missing)] Vc,
}
impl Subj for T3M_2_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_2_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_2_Emp::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_2_Emp::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_2_Emp::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_2_Emp::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3M_2_Emp::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3M_2_Emp::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3_2_Long {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 24)] Vc,
}
impl Subj for T3_2_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_2_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_2_Long::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_2_Long::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_2_Long::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_2_Long::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3_2_Long::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3_2_Long::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3M_2_Long {
    #[cbor(skip, missing)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 24)] Vc,
}
impl Subj for T3M_2_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_2_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_2_Long::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_2_Long::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_2_Long::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_2_Long::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3M_2_Long::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3M_2_Long::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3_2_AB {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 24)] Vc,
}
impl Subj for T3_2_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_2_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_2_AB::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_2_AB::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_2_AB::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_2_AB::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3_2_AB::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3_2_AB::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3M_2_AB {
    #[cbor(skip)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(rename = 24)] Vc,
}
impl Subj for T3M_2_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_2_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_2_AB::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_2_AB::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_2_AB::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_2_AB::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3M_2_AB::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3M_2_AB::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3_3_v {
    Va {  },
    #[cbor(as_struct)] Vb,
    Vc,
}
impl Subj for T3_3_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_3_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_3_v::Va {  } => D::Var(0, vec![]),
            T3_3_v::Vb => D::Var(1, vec![]),
            T3_3_v::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_3_v::Va {  },
            1 => T3_3_v::Vb,
            2 => T3_3_v::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3M_3_v {
    Va {  },
    #[cbor(as_struct, missing)] Vb,
    Vc,
}
impl Subj for T3M_3_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_3_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_3_v::Va {  } => D::Var(0, vec![]),
            T3M_3_v::Vb => D::Var(1, vec![]),
            T3M_3_v::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_3_v::Va {  },
            1 => T3M_3_v::Vb,
            2 => T3M_3_v::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3_3_Num {
    Va {  },
    #[cbor(as_struct)] Vb,
    Vc,
}
impl Subj for T3_3_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_3_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_3_Num::Va {  } => D::Var(0, vec![]),
            T3_3_Num::Vb => D::Var(1, vec![]),
            T3_3_Num::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_3_Num::Va {  },
            1 => T3_3_Num::Vb,
            2 => T3_3_Num::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3M_3_Num {
    #[cbor(missing)] Va {  },
    #[cbor(as_struct)] Vb,
    Vc,
}
impl Subj for T3M_3_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_3_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_3_Num::Va {  } => D::Var(0, vec![]),
            T3M_3_Num::Vb => D::Var(1, vec![]),
            T3M_3_Num::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_3_Num::Va {  },
            1 => T3M_3_Num::Vb,
            2 => T3M_3_Num::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3_3_Emp {
    Va {  },
    #[cbor(as_struct)] Vb,
    Vc,
}
impl Subj for T3_3_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_3_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_3_Emp::Va {  } => D::Var(0, vec![]),
            T3_3_Emp::Vb => D::Var(1, vec![]),
            T3_3_Emp::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_3_Emp::Va {  },
            1 => T3_3_Emp::Vb,
            2 => T3_3_Emp::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3M_3_Emp {
    #[cbor(missing)] Va {  },
    #[cbor(as_struct)] Vb,
    Vc,
}
impl Subj for T3M_3_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_3_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_3_Emp::Va {  } => D::Var(0, vec![]),
            T3M_3_Emp::Vb => D::Var(1, vec![]),
            T3M_3_Emp::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_3_Emp::Va {  },
            1 => T3M_3_Emp::Vb,
            2 => T3M_3_Emp::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3_3_Long {
    Va {  },
    #[cbor(as_struct)] Vb,
    Vc,
}
impl Subj for T3_3_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_3_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_3_Long::Va {  } => D::Var(0, vec![]),
            T3_3_Long::Vb => D::Var(1, vec![]),
            T3_3_Long::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_3_Long::Va {  },
            1 => T3_3_Long::Vb,
            2 => T3_3_Long::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3M_3_Long {
    Va {  },
    #[cbor(as_struct, missing)] Vb,
    Vc,
}
impl Subj for T3M_3_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_3_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_3_Long::Va {  } => D::Var(0, vec![]),
            T3M_3_Long::Vb => D::Var(1, vec![]),
            T3M_3_Long::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_3_Long::Va {  },
            1 => T3M_3_Long::Vb,
            2 => T3M_3_Long::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3_3_AB {
    Va {  },
    #[cbor(as_struct)] Vb,
    Vc,
}
impl Subj for T3_3_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_3_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_3_AB::Va {  } => D::Var(0, vec![]),
            T3_3_AB::Vb => D::Var(1, vec![]),
            T3_3_AB::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_3_AB::Va {  },
            1 => T3_3_AB::Vb,
            2 => T3_3_AB::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3M_3_AB {
    Va {  },
    #[cbor(as_struct)] Vb,
    #[cbor(missing)] Vc,
}
impl Subj for T3M_3_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_3_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_3_AB::Va {  } => D::Var(0, vec![]),
            T3M_3_AB::Vb => D::Var(1, vec![]),
            T3M_3_AB::Vc => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_3_AB::Va {  },
            1 => T3M_3_AB::Vb,
            2 => T3M_3_AB::Vc,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3_4_v {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 24)] Vc { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T3_4_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_4_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_4_v::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_4_v::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_4_v::Vc { w: x0, z: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_4_v::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T3_4_v::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            2 => T3_4_v::Vc { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3M_4_v {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 24, missing)] Vc { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T3M_4_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_4_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_4_v::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_4_v::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_4_v::Vc { w: x0, z: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_4_v::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T3M_4_v::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            2 => T3M_4_v::Vc { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3_4_Num {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 24)] Vc { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T3_4_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_4_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_4_Num::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_4_Num::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_4_Num::Vc { w: x0, z: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_4_Num::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T3_4_Num::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            2 => T3_4_Num::Vc { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3M_4_Num {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 24)] Vc { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T3M_4_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_4_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_4_Num::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_4_Num::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_4_Num::Vc { w: x0, z: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_4_Num::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T3M_4_Num::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            2 => T3M_4_Num::Vc { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3_4_Emp {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 24)] Vc { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T3_4_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_4_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_4_Emp::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_4_Emp::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_4_Emp::Vc { w: x0, z: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_4_Emp::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T3_4_Emp::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            2 => T3_4_Emp::Vc { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3M_4_Emp {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300, missing)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 24)] Vc { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T3M_4_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_4_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_4_Emp::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_4_Emp::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_4_Emp::Vc { w: x0, z: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_4_Emp::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T3M_4_Emp::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            2 => T3M_4_Emp::Vc { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3_4_Long {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 24)] Vc { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T3_4_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_4_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_4_Long::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_4_Long::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_4_Long::Vc { w: x0, z: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_4_Long::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T3_4_Long::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            2 => T3_4_Long::Vc { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3M_4_Long {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 24, missing)] Vc { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T3M_4_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_4_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_4_Long::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_4_Long::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_4_Long::Vc { w: x0, z: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_4_Long::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T3M_4_Long::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            2 => T3M_4_Long::Vc { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3_4_AB {
    #[cbor(rename = 7)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 24)] Vc { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T3_4_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_4_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_4_AB::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_4_AB::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_4_AB::Vc { w: x0, z: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_4_AB::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T3_4_AB::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            2 => T3_4_AB::Vc { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3M_4_AB {
    #[cbor(rename = 7, missing)] Va { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 300)] Vb { w: u8, #[cbor(rename = 30)] z: u16 },
    #[cbor(rename = 24)] Vc { w: u8, #[cbor(rename = 30)] z: u16 },
}
impl Subj for T3M_4_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_4_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] },
            VariantTy { key: M::U(24), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <u8 as Subj>::ty()), fld(M::U(30), <u16 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_4_AB::Va { w: x0, z: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_4_AB::Vb { w: x0, z: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_4_AB::Vc { w: x0, z: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_4_AB::Va { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            1 => T3M_4_AB::Vb { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            2 => T3M_4_AB::Vc { w: Subj::from_d(&v[0]), z: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3_5_v {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = "")] Vb(NS),
    #[cbor(rename = "n2")] Vc(NS),
}
impl Subj for T3_5_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_5_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("n2"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_5_v::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3_5_v::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_5_v::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_5_v::Va(Subj::from_d(&v[0])),
            1 => T3_5_v::Vb(Subj::from_d(&v[0])),
            2 => T3_5_v::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3M_5_v {
    #[cbor(rename = "n0", missing)] Va(NS),
    #[cbor(rename = "")] Vb(NS),
    #[cbor(rename = "n2")] Vc(NS),
}
impl Subj for T3M_5_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_5_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("n2"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_5_v::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3M_5_v::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_5_v::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_5_v::Va(Subj::from_d(&v[0])),
            1 => T3M_5_v::Vb(Subj::from_d(&v[0])),
            2 => T3M_5_v::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3_5_Num {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = "")] Vb(NS),
    #[cbor(rename = "n2")] Vc(NS),
}
impl Subj for T3_5_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_5_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("n2"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_5_Num::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3_5_Num::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_5_Num::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_5_Num::Va(Subj::from_d(&v[0])),
            1 => T3_5_Num::Vb(Subj::from_d(&v[0])),
            2 => T3_5_Num::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3M_5_Num {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = "")] Vb(NS),
    #[cbor(rename = "n2", missing)] Vc(NS),
}
impl Subj for T3M_5_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_5_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("n2"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_5_Num::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3M_5_Num::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_5_Num::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_5_Num::Va(Subj::from_d(&v[0])),
            1 => T3M_5_Num::Vb(Subj::from_d(&v[0])),
            2 => T3M_5_Num::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3_5_Emp {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = "")] Vb(NS),
    #[cbor(rename = "n2")] Vc(NS),
}
impl Subj for T3_5_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_5_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("n2"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_5_Emp::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3_5_Emp::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_5_Emp::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_5_Emp::Va(Subj::from_d(&v[0])),
            1 => T3_5_Emp::Vb(Subj::from_d(&v[0])),
            2 => T3_5_Emp::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3M_5_Emp {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = "")] Vb(NS),
    #[cbor(rename = "n2", missing)] Vc(NS),
}
impl Subj for T3M_5_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_5_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("n2"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_5_Emp::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3M_5_Emp::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_5_Emp::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_5_Emp::Va(Subj::from_d(&v[0])),
            1 => T3M_5_Emp::Vb(Subj::from_d(&v[0])),
            2 => T3M_5_Emp::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3_5_Long {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = "")] Vb(NS),
    #[cbor(rename = "n2")] Vc(NS),
}
impl Subj for T3_5_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_5_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("n2"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_5_Long::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3_5_Long::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_5_Long::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_5_Long::Va(Subj::from_d(&v[0])),
            1 => T3_5_Long::Vb(Subj::from_d(&v[0])),
            2 => T3_5_Long::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3M_5_Long {
    #[cbor(rename = "n0", missing)] Va(NS),
    #[cbor(rename = "")] Vb(NS),
    #[cbor(rename = "n2")] Vc(NS),
}
impl Subj for T3M_5_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_5_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("n2"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_5_Long::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3M_5_Long::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_5_Long::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_5_Long::Va(Subj::from_d(&v[0])),
            1 => T3M_5_Long::Vb(Subj::from_d(&v[0])),
            2 => T3M_5_Long::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3_5_AB {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = "")] Vb(NS),
    #[cbor(rename = "n2")] Vc(NS),
}
impl Subj for T3_5_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_5_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("n2"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_5_AB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3_5_AB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3_5_AB::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_5_AB::Va(Subj::from_d(&v[0])),
            1 => T3_5_AB::Vb(Subj::from_d(&v[0])),
            2 => T3_5_AB::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3M_5_AB {
    #[cbor(rename = "n0")] Va(NS),
    #[cbor(rename = "", missing)] Vb(NS),
    #[cbor(rename = "n2")] Vc(NS),
}
impl Subj for T3M_5_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_5_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("n2"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_5_AB::Va(x0) => D::Var(0, vec![x0.to_d()]),
            T3M_5_AB::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            T3M_5_AB::Vc(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_5_AB::Va(Subj::from_d(&v[0])),
            1 => T3M_5_AB::Vb(Subj::from_d(&v[0])),
            2 => T3M_5_AB::Vc(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3_6_v {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    Vc { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T3_6_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_6_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_6_v::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_6_v::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_6_v::Vc { bb: x0, a: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_6_v::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3_6_v::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3_6_v::Vc { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum T3M_6_v {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    Vc { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T3M_6_v {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_6_v".into(), tag: Some(t("v")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_6_v::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_6_v::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_6_v::Vc { bb: x0, a: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_6_v::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3M_6_v::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3M_6_v::Vc { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3_6_Num {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    Vc { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T3_6_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_6_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_6_Num::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_6_Num::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_6_Num::Vc { bb: x0, a: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_6_Num::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3_6_Num::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3_6_Num::Vc { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 3)]
pub enum T3M_6_Num {
    #[cbor(missing)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    Vc { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T3M_6_Num {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_6_Num".into(), tag: Some(M::U(3)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_6_Num::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_6_Num::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_6_Num::Vc { bb: x0, a: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_6_Num::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3M_6_Num::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3M_6_Num::Vc { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3_6_Emp {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    Vc { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T3_6_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_6_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_6_Emp::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_6_Emp::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_6_Emp::Vc { bb: x0, a: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_6_Emp::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3_6_Emp::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3_6_Emp::Vc { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "")]
pub enum T3M_6_Emp {
    #[cbor(missing)] Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    Vc { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T3M_6_Emp {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_6_Emp".into(), tag: Some(t("")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_6_Emp::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_6_Emp::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_6_Emp::Vc { bb: x0, a: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_6_Emp::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3M_6_Emp::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3M_6_Emp::Vc { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3_6_Long {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    Vc { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T3_6_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_6_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_6_Long::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_6_Long::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_6_Long::Vc { bb: x0, a: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_6_Long::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3_6_Long::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3_6_Long::Vc { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "the_tag_of_internally_tagged")]
pub enum T3M_6_Long {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    Vc { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T3M_6_Long {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_6_Long".into(), tag: Some(t("the_tag_of_internally_tagged")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_6_Long::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_6_Long::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_6_Long::Vc { bb: x0, a: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_6_Long::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3M_6_Long::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3M_6_Long::Vc { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3_6_AB {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    Vc { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T3_6_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3_6_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3_6_AB::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3_6_AB::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3_6_AB::Vc { bb: x0, a: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3_6_AB::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3_6_AB::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3_6_AB::Vc { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "ab")]
pub enum T3M_6_AB {
    Va { bb: u8, #[cbor(optional)] a: Option<String> },
    Vb { bb: u8, #[cbor(optional)] a: Option<String> },
    #[cbor(missing)] Vc { bb: u8, #[cbor(optional)] a: Option<String> },
}
impl Subj for T3M_6_AB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "T3M_6_AB".into(), tag: Some(t("ab")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            T3M_6_AB::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            T3M_6_AB::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            T3M_6_AB::Vc { bb: x0, a: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => T3M_6_AB::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            1 => T3M_6_AB::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            2 => T3M_6_AB::Vc { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HoldT { pub t: T_Named, pub u: Vec<TM_Unit_Named>, #[cbor(optional)] pub o: Option<T_NNM> }
impl Subj for HoldT {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("t"), <T_Named as Subj>::ty()), fld(t("u"), <Vec<TM_Unit_Named> as Subj>::ty()), fld(t("o"), <Option<T_NNM> as Subj>::ty()).opt()];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HoldT".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HoldT { t: x0, u: x1, o: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HoldT { t: Subj::from_d(&v[0]), u: Subj::from_d(&v[1]), o: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_Unit {
    Va,
}
impl Subj for Un_Unit {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_Unit".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_Unit::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_Unit::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_Unit_2 {
    Va(u8),
    Vb,
}
impl Subj for Un_Unit_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_Unit_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_Unit_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_Unit_2::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_Unit_2::Va(Subj::from_d(&v[0])),
            1 => Un_Unit_2::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_UText {
    #[cbor(rename = "n0")] Va,
}
impl Subj for Un_UText {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_UText".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("n0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_UText::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_UText::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_UText_2 {
    Va(u8),
    #[cbor(rename = "")] Vb,
}
impl Subj for Un_UText_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_UText_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t(""), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_UText_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_UText_2::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_UText_2::Va(Subj::from_d(&v[0])),
            1 => Un_UText_2::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_UNum {
    #[cbor(rename = 7)] Va,
}
impl Subj for Un_UNum {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_UNum".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_UNum::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_UNum::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_UNum_2 {
    Va(u8),
    #[cbor(rename = 300)] Vb,
}
impl Subj for Un_UNum_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_UNum_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_UNum_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_UNum_2::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_UNum_2::Va(Subj::from_d(&v[0])),
            1 => Un_UNum_2::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[repr(u16)]
#[cbor(untagged)]
pub enum Un_UDisc {
    Va = 1,
}
impl Subj for Un_UDisc {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_UDisc".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(1)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_UDisc::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_UDisc::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[repr(u16)]
#[cbor(untagged)]
pub enum Un_UDisc_2 {
    Va(u8),
    Vb = 2,
}
impl Subj for Un_UDisc_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_UDisc_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(2)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_UDisc_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_UDisc_2::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_UDisc_2::Va(Subj::from_d(&v[0])),
            1 => Un_UDisc_2::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[repr(i32)]
#[cbor(untagged)]
pub enum Un_UExpr {
    Va = -(1 << 8),
}
impl Subj for Un_UExpr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_UExpr".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: Some(int(-256)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_UExpr::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_UExpr::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[repr(u16)]
#[cbor(untagged)]
pub enum Un_UExpr_2 {
    Va(u8),
    Vb = 41 * 100 + 23,
}
impl Subj for Un_UExpr_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_UExpr_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: Some(int(4123)), shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_UExpr_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_UExpr_2::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_UExpr_2::Va(Subj::from_d(&v[0])),
            1 => Un_UExpr_2::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_UStruct {
    #[cbor(as_struct)] Va,
}
impl Subj for Un_UStruct {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_UStruct".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_UStruct::Va => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_UStruct::Va,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_UStruct_2 {
    Va(u8),
    #[cbor(as_struct)] Vb,
}
impl Subj for Un_UStruct_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_UStruct_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: true, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_UStruct_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_UStruct_2::Vb => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_UStruct_2::Va(Subj::from_d(&v[0])),
            1 => Un_UStruct_2::Vb,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NU8 {
    Va(u8),
}
impl Subj for Un_NU8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NU8".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NU8::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NU8::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NU8_2 {
    Va(u8),
    Vb(u8),
}
impl Subj for Un_NU8_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NU8_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NU8_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_NU8_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NU8_2::Va(Subj::from_d(&v[0])),
            1 => Un_NU8_2::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NStr {
    #[cbor(rename = 7)] Va(String),
}
impl Subj for Un_NStr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NStr".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: M::U(7), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NStr::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NStr::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NStr_2 {
    Va(u8),
    #[cbor(rename = 300)] Vb(String),
}
impl Subj for Un_NStr_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NStr_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(300), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NStr_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_NStr_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NStr_2::Va(Subj::from_d(&v[0])),
            1 => Un_NStr_2::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NOpt {
    Va(Option<u8>),
}
impl Subj for Un_NOpt {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NOpt".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NOpt::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NOpt::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NOpt_2 {
    Va(u8),
    Vb(Option<u8>),
}
impl Subj for Un_NOpt_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NOpt_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NOpt_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_NOpt_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NOpt_2::Va(Subj::from_d(&v[0])),
            1 => Un_NOpt_2::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NNS {
    Va(NS),
}
impl Subj for Un_NNS {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NNS".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NNS::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NNS::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NNS_2 {
    Va(u8),
    Vb(NS),
}
impl Subj for Un_NNS_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NNS_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NNS_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_NNS_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NNS_2::Va(Subj::from_d(&v[0])),
            1 => Un_NNS_2::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NVec {
    #[cbor(rename = "rn0")] Va(Vec<u8>),
}
impl Subj for Un_NVec {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NVec".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("rn0"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NVec::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NVec::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NVec_2 {
    Va(u8),
    #[cbor(rename = "r")] Vb(Vec<u8>),
}
impl Subj for Un_NVec_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NVec_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("r"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NVec_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_NVec_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NVec_2::Va(Subj::from_d(&v[0])),
            1 => Un_NVec_2::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_Tup {
    Va(u8, String),
}
impl Subj for Un_Tup {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_Tup".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_Tup::Va(x0, x1) => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_Tup::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_Tup_2 {
    Va(u8),
    Vb(u8, String),
}
impl Subj for Un_Tup_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_Tup_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_Tup_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_Tup_2::Vb(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_Tup_2::Va(Subj::from_d(&v[0])),
            1 => Un_Tup_2::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_TSkip {
    Va(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for Un_TSkip {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_TSkip".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_TSkip::Va(x0, x1, x2) => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_TSkip::Va(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_TSkip_2 {
    Va(u8),
    Vb(u8, #[cbor(skip)] u32, Option<u8>),
}
impl Subj for Un_TSkip_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_TSkip_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_TSkip_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_TSkip_2::Vb(x0, x1, x2) => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_TSkip_2::Va(Subj::from_d(&v[0])),
            1 => Un_TSkip_2::Vb(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_T0 {
    Va(),
}
impl Subj for Un_T0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_T0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_T0::Va() => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_T0::Va(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_T0_2 {
    Va(u8),
    Vb(),
}
impl Subj for Un_T0_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_T0_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_T0_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_T0_2::Vb() => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_T0_2::Va(Subj::from_d(&v[0])),
            1 => Un_T0_2::Vb(),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_Named {
    Va { bb: u8, a: Option<String> },
}
impl Subj for Un_Named {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_Named".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_Named::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_Named::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_Named_2 {
    Va(u8),
    Vb { bb: u8, a: Option<String> },
}
impl Subj for Un_Named_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_Named_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_Named_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_Named_2::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_Named_2::Va(Subj::from_d(&v[0])),
            1 => Un_Named_2::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NMix {
    Va { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for Un_NMix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NMix".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NMix::Va { x: x0, y: x1, z: x2 } => D::Var(0, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NMix::Va { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NMix_2 {
    Va(u8),
    Vb { #[cbor(optional)] x: u64, #[cbor(skip)] y: u8, #[cbor(rename = 5)] z: bool },
}
impl Subj for Un_NMix_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NMix_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u64 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty()).skipped(), fld(M::U(5), <bool as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NMix_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_NMix_2::Vb { x: x0, y: x1, z: x2 } => D::Var(1, vec![x0.to_d(), x1.to_d(), x2.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NMix_2::Va(Subj::from_d(&v[0])),
            1 => Un_NMix_2::Vb { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_N0 {
    Va {  },
}
impl Subj for Un_N0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_N0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_N0::Va {  } => D::Var(0, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_N0::Va {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_N0_2 {
    Va(u8),
    Vb {  },
}
impl Subj for Un_N0_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_N0_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_N0_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_N0_2::Vb {  } => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_N0_2::Va(Subj::from_d(&v[0])),
            1 => Un_N0_2::Vb {  },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NArr {
    #[cbor(as_array)] Va { bb: u8, a: Option<String> },
}
impl Subj for Un_NArr {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NArr".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NArr::Va { bb: x0, a: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NArr::Va { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NArr_2 {
    Va(u8),
    #[cbor(as_array)] Vb { bb: u8, a: Option<String> },
}
impl Subj for Un_NArr_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NArr_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NArr_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_NArr_2::Vb { bb: x0, a: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NArr_2::Va(Subj::from_d(&v[0])),
            1 => Un_NArr_2::Vb { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NUnk {
    #[cbor(allow_unknown)] Va { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for Un_NUnk {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NUnk".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NUnk::Va { m: x0, l: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NUnk::Va { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NUnk_2 {
    Va(u8),
    #[cbor(allow_unknown)] Vb { m: u8, #[cbor(optional)] l: i8 },
}
impl Subj for Un_NUnk_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NUnk_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("m"), <u8 as Subj>::ty()), fld(t("l"), <i8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NUnk_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_NUnk_2::Vb { m: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NUnk_2::Va(Subj::from_d(&v[0])),
            1 => Un_NUnk_2::Vb { m: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_EmA {
    #[cbor(embed)] Va(EA),
}
impl Subj for Un_EmA {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_EmA".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_EmA::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_EmA::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_EmA_2 {
    Va(u8),
    #[cbor(embed)] Vb(EA),
}
impl Subj for Un_EmA_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_EmA_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_EmA_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_EmA_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_EmA_2::Va(Subj::from_d(&v[0])),
            1 => Un_EmA_2::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_EmB {
    #[cbor(embed)] Va(EB),
}
impl Subj for Un_EmB {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_EmB".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_EmB::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_EmB::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_EmB_2 {
    Va(u8),
    #[cbor(embed)] Vb(EB),
}
impl Subj for Un_EmB_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_EmB_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EB as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_EmB_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_EmB_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_EmB_2::Va(Subj::from_d(&v[0])),
            1 => Un_EmB_2::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NEN {
    Va(EN),
}
impl Subj for Un_NEN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NEN".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NEN::Va(x0) => D::Var(0, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NEN::Va(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_NEN_2 {
    Va(u8),
    Vb(EN),
}
impl Subj for Un_NEN_2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_NEN_2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_NEN_2::Va(x0) => D::Var(0, vec![x0.to_d()]),
            Un_NEN_2::Vb(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_NEN_2::Va(Subj::from_d(&v[0])),
            1 => Un_NEN_2::Vb(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum Un_mix {
    Va,
    Vb(NS),
    Vc(u8, String),
    Vd { bb: u8, a: Option<String> },
}
impl Subj for Un_mix {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Un_mix".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Va"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Vb"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <NS as Subj>::ty())] },
            VariantTy { key: t("Vc"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Vd"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Un_mix::Va => D::Var(0, vec![]),
            Un_mix::Vb(x0) => D::Var(1, vec![x0.to_d()]),
            Un_mix::Vc(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            Un_mix::Vd { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Un_mix::Va,
            1 => Un_mix::Vb(Subj::from_d(&v[0])),
            2 => Un_mix::Vc(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => Un_mix::Vd { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum Outer {
    A(Vec<E_Unit_NU8>),
    B { m: BTreeMap<String, EN>, t: T_Named },
    C(Option<EA>),
    D((EA, EB)),
}
impl Subj for Outer {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Outer".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<E_Unit_NU8> as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("m"), <BTreeMap<String, EN> as Subj>::ty()), fld(t("t"), <T_Named as Subj>::ty())] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<EA> as Subj>::ty())] },
            VariantTy { key: t("D"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(EA, EB) as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Outer::A(x0) => D::Var(0, vec![x0.to_d()]),
            Outer::B { m: x0, t: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            Outer::C(x0) => D::Var(2, vec![x0.to_d()]),
            Outer::D(x0) => D::Var(3, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Outer::A(Subj::from_d(&v[0])),
            1 => Outer::B { m: Subj::from_d(&v[0]), t: Subj::from_d(&v[1]) },
            2 => Outer::C(Subj::from_d(&v[0])),
            3 => Outer::D(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct Hold { pub b: Outer, pub a: Option<EB>, #[cbor(optional)] pub c: Vec<EX> }
impl Subj for Hold {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <Outer as Subj>::ty()), fld(t("a"), <Option<EB> as Subj>::ty()), fld(t("c"), <Vec<EX> as Subj>::ty()).opt()];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "Hold".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let Hold { b: x0, a: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Hold { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
pub enum GE<T> where T: Encode + Decode {
    A(T),
    B { t: T, #[cbor(optional)] l: Vec<T> },
    C,
}
impl<T> Subj for GE<T> where T: Subj + Encode + Decode {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "GE".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <T as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("t"), <T as Subj>::ty()), fld(t("l"), <Vec<T> as Subj>::ty()).opt()] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            GE::A(x0) => D::Var(0, vec![x0.to_d()]),
            GE::B { t: x0, l: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            GE::C => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => GE::A(Subj::from_d(&v[0])),
            1 => GE::B { t: Subj::from_d(&v[0]), l: Subj::from_d(&v[1]) },
            2 => GE::C,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "g")]
pub enum GT<T> where T: Encode + Decode {
    A { t: T },
    C,
}
impl<T> Subj for GT<T> where T: Subj + Encode + Decode {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "GT".into(), tag: Some(t("g")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("t"), <T as Subj>::ty())] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            GT::A { t: x0 } => D::Var(0, vec![x0.to_d()]),
            GT::C => D::Var(1, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => GT::A { t: Subj::from_d(&v[0]) },
            1 => GT::C,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum GN<const N: usize> {
    Z,
    B([u8; N]),
    W { w: [u16; N], #[cbor(optional)] o: [u8; N] },
    #[cbor(rename = 3)] P(u8, [bool; N]),
}
impl<const N: usize> Subj for GN<N> {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "GN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Z"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[u8; N] as Subj>::ty())] },
            VariantTy { key: t("W"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("w"), <[u16; N] as Subj>::ty()), fld(t("o"), <[u8; N] as Subj>::ty()).opt()] },
            VariantTy { key: M::U(3), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <[bool; N] as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            GN::Z => D::Var(0, vec![]),
            GN::B(x0) => D::Var(1, vec![x0.to_d()]),
            GN::W { w: x0, o: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            GN::P(x0, x1) => D::Var(3, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => GN::Z,
            1 => GN::B(Subj::from_d(&v[0])),
            2 => GN::W { w: Subj::from_d(&v[0]), o: Subj::from_d(&v[1]) },
            3 => GN::P(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl<const N: usize> Default for GN<N> {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum GD<A, B = u8> where A: Subj + Encode + Decode + Default, B: Subj + Encode + Decode + Default {
    L(A),
    R { r: B, #[cbor(optional)] i: Vec<A> },
    #[cbor(skip)] S,
}
impl<A, B> Subj for GD<A, B> where A: Subj + Encode + Decode + Default, B: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "GD".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("L"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <A as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("r"), <B as Subj>::ty()), fld(t("i"), <Vec<A> as Subj>::ty()).opt()] },
            VariantTy { key: t("S"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            GD::L(x0) => D::Var(0, vec![x0.to_d()]),
            GD::R { r: x0, i: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            GD::S => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => GD::L(Subj::from_d(&v[0])),
            1 => GD::R { r: Subj::from_d(&v[0]), i: Subj::from_d(&v[1]) },
            2 => GD::S,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum GM<T, const N: usize> {
    A { a: u8, #[cbor(skip)] p: std::marker::PhantomData<T> },
    B(BTreeMap<String, u8>),
    #[cbor(missing)] C { n: [u16; N] },
}
impl<T, const N: usize> Subj for GM<T, N> {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "GM".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), <u8 as Subj>::ty()), fld(t("p"), <std::marker::PhantomData<T> as Subj>::ty()).skipped()] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("n"), <[u16; N] as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            GM::A { a: x0, p: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            GM::B(x0) => D::Var(1, vec![x0.to_d()]),
            GM::C { n: x0 } => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => GM::A { a: Subj::from_d(&v[0]), p: Subj::from_d(&v[1]) },
            1 => GM::B(Subj::from_d(&v[0])),
            2 => GM::C { n: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
pub enum LE<'a> {
    U,
    N(&'a str),
    T(&'a u128, Option<&'a str>),
    S { s: Vec<&'a str>, #[cbor(optional)] n: &'a u128 },
}
impl Subj for LE<'static> {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "LE".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <&'static str as Subj>::ty())] },
            VariantTy { key: t("T"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <&'static u128 as Subj>::ty()), fld(NULL, <Option<&'static str> as Subj>::ty())] },
            VariantTy { key: t("S"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("s"), <Vec<&'static str> as Subj>::ty()), fld(t("n"), <&'static u128 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            LE::U => D::Var(0, vec![]),
            LE::N(x0) => D::Var(1, vec![x0.to_d()]),
            LE::T(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            LE::S { s: x0, n: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => LE::U,
            1 => LE::N(Subj::from_d(&v[0])),
            2 => LE::T(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => LE::S { s: Subj::from_d(&v[0]), n: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(tag = "k")]
pub enum LG<'a> {
    A { s: &'a str, #[cbor(optional)] n: &'a u128 },
    B(BTreeMap<&'a str, LE<'a>>),
}
impl Subj for LG<'static> {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "LG".into(), tag: Some(t("k")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("s"), <&'static str as Subj>::ty()), fld(t("n"), <&'static u128 as Subj>::ty()).opt()] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<&'static str, LE<'static>> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            LG::A { s: x0, n: x1 } => D::Var(0, vec![x0.to_d(), x1.to_d()]),
            LG::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => LG::A { s: Subj::from_d(&v[0]), n: Subj::from_d(&v[1]) },
            1 => LG::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum LU<'a> {
    A(&'a str),
    B(&'a u128, LE<'a>),
}
impl Subj for LU<'static> {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "LU".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <&'static str as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <&'static u128 as Subj>::ty()), fld(NULL, <LE<'static> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            LU::A(x0) => D::Var(0, vec![x0.to_d()]),
            LU::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => LU::A(Subj::from_d(&v[0])),
            1 => LU::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Encode, Decode)]
pub enum ER1 {
    Nil,
    Leaf(u8),
    Kids(Vec<ER1>),
}
impl Subj for ER1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ER1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Nil"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Leaf"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Kids"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, Ty::Seq(Arc::new(Ty::Rec(ER1::ty))))] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ER1::Nil => D::Var(0, vec![]),
            ER1::Leaf(x0) => D::Var(1, vec![x0.to_d()]),
            ER1::Kids(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ER1::Nil,
            1 => ER1::Leaf(Subj::from_d(&v[0])),
            2 => ER1::Kids(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for ER1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum ER2 {
    Nil,
    Map { #[cbor(optional)] m: BTreeMap<u8, ER2>, x: u8 },
    #[cbor(rename = 2)] Two(Vec<ER2>, Vec<ER2>),
}
impl Subj for ER2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ER2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Nil"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Map"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("m"), Ty::Map(Arc::new(u8::ty()), Arc::new(Ty::Rec(ER2::ty)))).opt(), fld(t("x"), <u8 as Subj>::ty())] },
            VariantTy { key: M::U(2), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, Ty::Seq(Arc::new(Ty::Rec(ER2::ty)))), fld(NULL, Ty::Seq(Arc::new(Ty::Rec(ER2::ty))))] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ER2::Nil => D::Var(0, vec![]),
            ER2::Map { m: x0, x: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            ER2::Two(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ER2::Nil,
            1 => ER2::Map { m: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) },
            2 => ER2::Two(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for ER2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "kind")]
pub enum ER3 {
    Nil,
    Leaf { x: u8 },
    Node { kids: Vec<ER3>, #[cbor(optional)] more: Option<Vec<ER3>> },
}
impl Subj for ER3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ER3".into(), tag: Some(t("kind")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Nil"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Leaf"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty())] },
            VariantTy { key: t("Node"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("kids"), Ty::Seq(Arc::new(Ty::Rec(ER3::ty)))), fld(t("more"), Ty::Opt(Arc::new(Ty::Seq(Arc::new(Ty::Rec(ER3::ty)))))).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ER3::Nil => D::Var(0, vec![]),
            ER3::Leaf { x: x0 } => D::Var(1, vec![x0.to_d()]),
            ER3::Node { kids: x0, more: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ER3::Nil,
            1 => ER3::Leaf { x: Subj::from_d(&v[0]) },
            2 => ER3::Node { kids: Subj::from_d(&v[0]), more: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for ER3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum ER4 {
    Nil,
    Leaf(u8),
    Kids(Vec<ER4>),
}
impl Subj for ER4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ER4".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Nil"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Leaf"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Kids"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, Ty::Seq(Arc::new(Ty::Rec(ER4::ty))))] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ER4::Nil => D::Var(0, vec![]),
            ER4::Leaf(x0) => D::Var(1, vec![x0.to_d()]),
            ER4::Kids(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ER4::Nil,
            1 => ER4::Leaf(Subj::from_d(&v[0])),
            2 => ER4::Kids(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for ER4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum ER5 {
    Nil,
    #[cbor(as_array)] Arr { x: u8, k: Vec<ER5> },
}
impl Subj for ER5 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ER5".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("Nil"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Arr"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()), fld(t("k"), Ty::Seq(Arc::new(Ty::Rec(ER5::ty))))] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ER5::Nil => D::Var(0, vec![]),
            ER5::Arr { x: x0, k: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ER5::Nil,
            1 => ER5::Arr { x: Subj::from_d(&v[0]), k: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for ER5 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum ER6 {
    Z,
    Own(Vec<ER7>),
    #[cbor(embed)] In(EA),
}
impl Subj for ER6 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ER6".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Z"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Own"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, Ty::Seq(Arc::new(Ty::Rec(ER7::ty))))] },
            VariantTy { key: t("In"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EA as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ER6::Z => D::Var(0, vec![]),
            ER6::Own(x0) => D::Var(1, vec![x0.to_d()]),
            ER6::In(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ER6::Z,
            1 => ER6::Own(Subj::from_d(&v[0])),
            2 => ER6::In(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for ER6 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum ER7 {
    Stop,
    Back { b: BTreeMap<u8, ER6> },
}
impl Subj for ER7 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ER7".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Stop"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Back"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("b"), Ty::Map(Arc::new(u8::ty()), Arc::new(Ty::Rec(ER6::ty))))] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ER7::Stop => D::Var(0, vec![]),
            ER7::Back { b: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ER7::Stop,
            1 => ER7::Back { b: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for ER7 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}

pub fn types() -> Vec<Ops> {
    let mut v = vec![];
    types0(&mut v);
    types1(&mut v);
    types2(&mut v);
    types3(&mut v);
    types4(&mut v);
    types5(&mut v);
    types6(&mut v);
    types7(&mut v);
    types8(&mut v);
    types9(&mut v);
    types10(&mut v);
    types11(&mut v);
    types12(&mut v);
    types13(&mut v);
    types14(&mut v);
    types15(&mut v);
    types16(&mut v);
    types17(&mut v);
    types18(&mut v);
    types19(&mut v);
    types20(&mut v);
    types21(&mut v);
    types22(&mut v);
    types23(&mut v);
    types24(&mut v);
    types25(&mut v);
    types26(&mut v);
    types27(&mut v);
    types28(&mut v);
    types29(&mut v);
    types30(&mut v);
    types31(&mut v);
    types32(&mut v);
    types33(&mut v);
    types34(&mut v);
    types35(&mut v);
    types36(&mut v);
    types37(&mut v);
    types38(&mut v);
    v
}
fn types0(v: &mut Vec<Ops>) {
    v.push(marked!(EN, ops::<EN>("EN")));
    v.push(marked!(NS, ops::<NS>("NS")));
    v.push(marked!(NM, ops::<NM>("NM")));
    v.push(marked!(TW, ops::<TW>("TW")));
    v.push(marked!(UN, ops::<UN>("UN")));
    v.push(marked!(AR, ops::<AR>("AR")));
    v.push(marked!(ND, ops::<ND>("ND")));
    v.push(marked!(ED, ops::<ED>("ED")));
    v.push(marked!(EA, ops::<EA>("EA")));
    v.push(marked!(EB, ops::<EB>("EB")));
    v.push(marked!(EX, ops::<EX>("EX")));
    v.push(marked!(TE, ops::<TE>("TE")));
    v.push(marked!(E_Unit, ops::<E_Unit>("E_Unit")));
    v.push(marked!(E_UText, ops::<E_UText>("E_UText")));
    v.push(marked!(E_UNum, ops::<E_UNum>("E_UNum")));
    v.push(marked!(E_UDisc, ops::<E_UDisc>("E_UDisc")));
    v.push(marked!(E_UExpr, ops::<E_UExpr>("E_UExpr")));
    v.push(marked!(E_UStruct, ops::<E_UStruct>("E_UStruct")));
    v.push(marked!(E_NU8, ops::<E_NU8>("E_NU8")));
    v.push(marked!(E_NStr, ops::<E_NStr>("E_NStr")));
    v.push(marked!(E_NOpt, ops::<E_NOpt>("E_NOpt")));
    v.push(marked!(E_NNS, ops::<E_NNS>("E_NNS")));
    v.push(marked!(E_NVec, ops::<E_NVec>("E_NVec")));
    v.push(marked!(E_Tup, ops::<E_Tup>("E_Tup")));
    v.push(marked!(E_TSkip, ops::<E_TSkip>("E_TSkip")));
    v.push(marked!(E_T0, ops::<E_T0>("E_T0")));
    v.push(marked!(E_Named, ops::<E_Named>("E_Named")));
    v.push(marked!(E_NMix, ops::<E_NMix>("E_NMix")));
    v.push(marked!(E_N0, ops::<E_N0>("E_N0")));
    v.push(marked!(E_NArr, ops::<E_NArr>("E_NArr")));
    v.push(marked!(E_NUnk, ops::<E_NUnk>("E_NUnk")));
    v.push(marked!(E_SUnit, ops::<E_SUnit>("E_SUnit")));
    v.push(marked!(E_SNew, ops::<E_SNew>("E_SNew")));
    v.push(marked!(E_EmA, ops::<E_EmA>("E_EmA")));
    v.push(marked!(E_EmB, ops::<E_EmB>("E_EmB")));
    v.push(marked!(E_NEN, ops::<E_NEN>("E_NEN")));
    v.push(marked!(E_EmS, ops::<E_EmS>("E_EmS")));
    v.push(marked!(E_EmX, ops::<E_EmX>("E_EmX")));
    v.push(marked!(E_SNamed, ops::<E_SNamed>("E_SNamed")));
    v.push(marked!(E_SEmA, ops::<E_SEmA>("E_SEmA")));
    v.push(marked!(E_SEmB, ops::<E_SEmB>("E_SEmB")));
    v.push(marked!(E_SDisc, ops::<E_SDisc>("E_SDisc")));
    v.push(marked!(E_SRen, ops::<E_SRen>("E_SRen")));
    v.push(marked!(E_SStruct, ops::<E_SStruct>("E_SStruct")));
    v.push(marked!(E_STup, ops::<E_STup>("E_STup")));
    v.push(marked!(E_SArr, ops::<E_SArr>("E_SArr")));
    v.push(marked!(E_SNone, ops::<E_SNone>("E_SNone")));
    v.push(marked!(E_NCod, ops::<E_NCod>("E_NCod")));
    v.push(marked!(E_TCod, ops::<E_TCod>("E_TCod")));
    v.push(marked!(E_TSk1, ops::<E_TSk1>("E_TSk1")));
}
fn types1(v: &mut Vec<Ops>) {
    v.push(marked!(E_NCNum, ops::<E_NCNum>("E_NCNum")));
    v.push(marked!(E_NCPos, ops::<E_NCPos>("E_NCPos")));
    v.push(marked!(E_NCSer, ops::<E_NCSer>("E_NCSer")));
    v.push(marked!(E_NCDe, ops::<E_NCDe>("E_NCDe")));
    v.push(marked!(E_NCWrap, ops::<E_NCWrap>("E_NCWrap")));
    v.push(marked!(E_NCUnder, ops::<E_NCUnder>("E_NCUnder")));
    v.push(marked!(E_NSkp, ops::<E_NSkp>("E_NSkp")));
    v.push(marked!(E_NSkN, ops::<E_NSkN>("E_NSkN")));
    v.push(marked!(E_EmC, ops::<E_EmC>("E_EmC")));
    v.push(marked!(E_EmD, ops::<E_EmD>("E_EmD")));
    v.push(marked!(E_NUnit, ops::<E_NUnit>("E_NUnit")));
    v.push(marked!(E_NVal, ops::<E_NVal>("E_NVal")));
    v.push(marked!(E_NUN, ops::<E_NUN>("E_NUN")));
    v.push(marked!(E_NND, ops::<E_NND>("E_NND")));
    v.push(marked!(E_NTW, ops::<E_NTW>("E_NTW")));
    v.push(marked!(E_NMap, ops::<E_NMap>("E_NMap")));
    v.push(marked!(E_NVecNS, ops::<E_NVecNS>("E_NVecNS")));
    v.push(marked!(E_NTup, ops::<E_NTup>("E_NTup")));
    v.push(marked!(E_NBig, ops::<E_NBig>("E_NBig")));
    v.push(marked!(E_UUnkS, ops::<E_UUnkS>("E_UUnkS")));
    v.push(marked!(E_N0Unk, ops::<E_N0Unk>("E_N0Unk")));
    v.push(marked!(E_NArr0, ops::<E_NArr0>("E_NArr0")));
    v.push(marked!(E_TUnk, ops::<E_TUnk>("E_TUnk")));
    v.push(marked!(E_RStruct, ops::<E_RStruct>("E_RStruct")));
    v.push(marked!(E_URText, ops::<E_URText>("E_URText")));
    v.push(marked!(E_NRen, ops::<E_NRen>("E_NRen")));
    v.push(marked!(E_Fu8, ops::<E_Fu8>("E_Fu8")));
    v.push(marked!(E_Qu8, ops::<E_Qu8>("E_Qu8")));
    v.push(marked!(E_FStr, ops::<E_FStr>("E_FStr")));
    v.push(marked!(E_QStr, ops::<E_QStr>("E_QStr")));
    v.push(marked!(E_FOpt, ops::<E_FOpt>("E_FOpt")));
    v.push(marked!(E_QOpt, ops::<E_QOpt>("E_QOpt")));
    v.push(marked!(E_FOOpt, ops::<E_FOOpt>("E_FOOpt")));
    v.push(marked!(E_QOOpt, ops::<E_QOOpt>("E_QOOpt")));
    v.push(marked!(E_FONum, ops::<E_FONum>("E_FONum")));
    v.push(marked!(E_QONum, ops::<E_QONum>("E_QONum")));
    v.push(marked!(E_FOVec, ops::<E_FOVec>("E_FOVec")));
    v.push(marked!(E_FSkip, ops::<E_FSkip>("E_FSkip")));
    v.push(marked!(E_QSkip, ops::<E_QSkip>("E_QSkip")));
    v.push(marked!(E_FRText, ops::<E_FRText>("E_FRText")));
    v.push(marked!(E_QRText, ops::<E_QRText>("E_QRText")));
    v.push(marked!(E_FRNum, ops::<E_FRNum>("E_FRNum")));
    v.push(marked!(E_QRNum, ops::<E_QRNum>("E_QRNum")));
    v.push(marked!(E_FRLong, ops::<E_FRLong>("E_FRLong")));
    v.push(marked!(E_QRLong, ops::<E_QRLong>("E_QRLong")));
    v.push(marked!(E_FWith, ops::<E_FWith>("E_FWith")));
    v.push(marked!(E_QWith, ops::<E_QWith>("E_QWith")));
    v.push(marked!(E_FOWith, ops::<E_FOWith>("E_FOWith")));
    v.push(marked!(E_QOWith, ops::<E_QOWith>("E_QOWith")));
    v.push(marked!(E_FSer, ops::<E_FSer>("E_FSer")));
}
fn types2(v: &mut Vec<Ops>) {
    v.push(marked!(E_QSer, ops::<E_QSer>("E_QSer")));
    v.push(marked!(E_FDe, ops::<E_FDe>("E_FDe")));
    v.push(marked!(E_QDe, ops::<E_QDe>("E_QDe")));
    v.push(marked!(E_FVal, ops::<E_FVal>("E_FVal")));
    v.push(marked!(E_QVal, ops::<E_QVal>("E_QVal")));
    v.push(marked!(E_FNS, ops::<E_FNS>("E_FNS")));
    v.push(marked!(E_QNS, ops::<E_QNS>("E_QNS")));
    v.push(marked!(E_FONS, ops::<E_FONS>("E_FONS")));
    v.push(marked!(E_QONS, ops::<E_QONS>("E_QONS")));
    v.push(marked!(E_FEN, ops::<E_FEN>("E_FEN")));
    v.push(marked!(E_QEN, ops::<E_QEN>("E_QEN")));
    v.push(marked!(E_FORNum, ops::<E_FORNum>("E_FORNum")));
    v.push(marked!(E_Unit_Unit, ops::<E_Unit_Unit>("E_Unit_Unit")));
    v.push(marked!(E_Unit_UText, ops::<E_Unit_UText>("E_Unit_UText")));
    v.push(marked!(E_Unit_UNum, ops::<E_Unit_UNum>("E_Unit_UNum")));
    v.push(marked!(E_Unit_UDisc, ops::<E_Unit_UDisc>("E_Unit_UDisc")));
    v.push(marked!(E_Unit_UExpr, ops::<E_Unit_UExpr>("E_Unit_UExpr")));
    v.push(marked!(E_Unit_UStruct, ops::<E_Unit_UStruct>("E_Unit_UStruct")));
    v.push(marked!(E_Unit_NU8, ops::<E_Unit_NU8>("E_Unit_NU8")));
    v.push(marked!(E_Unit_NStr, ops::<E_Unit_NStr>("E_Unit_NStr")));
    v.push(marked!(E_Unit_NOpt, ops::<E_Unit_NOpt>("E_Unit_NOpt")));
    v.push(marked!(E_Unit_NNS, ops::<E_Unit_NNS>("E_Unit_NNS")));
    v.push(marked!(E_Unit_NVec, ops::<E_Unit_NVec>("E_Unit_NVec")));
    v.push(marked!(E_Unit_Tup, ops::<E_Unit_Tup>("E_Unit_Tup")));
    v.push(marked!(E_Unit_TSkip, ops::<E_Unit_TSkip>("E_Unit_TSkip")));
    v.push(marked!(E_Unit_T0, ops::<E_Unit_T0>("E_Unit_T0")));
    v.push(marked!(E_Unit_Named, ops::<E_Unit_Named>("E_Unit_Named")));
    v.push(marked!(E_Unit_NMix, ops::<E_Unit_NMix>("E_Unit_NMix")));
    v.push(marked!(E_Unit_N0, ops::<E_Unit_N0>("E_Unit_N0")));
    v.push(marked!(E_Unit_NArr, ops::<E_Unit_NArr>("E_Unit_NArr")));
    v.push(marked!(E_Unit_NUnk, ops::<E_Unit_NUnk>("E_Unit_NUnk")));
    v.push(marked!(E_Unit_SUnit, ops::<E_Unit_SUnit>("E_Unit_SUnit")));
    v.push(marked!(E_Unit_SNew, ops::<E_Unit_SNew>("E_Unit_SNew")));
    v.push(marked!(E_Unit_EmA, ops::<E_Unit_EmA>("E_Unit_EmA")));
    v.push(marked!(E_Unit_EmB, ops::<E_Unit_EmB>("E_Unit_EmB")));
    v.push(marked!(E_Unit_NEN, ops::<E_Unit_NEN>("E_Unit_NEN")));
    v.push(marked!(E_UText_Unit, ops::<E_UText_Unit>("E_UText_Unit")));
    v.push(marked!(E_UText_UText, ops::<E_UText_UText>("E_UText_UText")));
    v.push(marked!(E_UText_UNum, ops::<E_UText_UNum>("E_UText_UNum")));
    v.push(marked!(E_UText_UDisc, ops::<E_UText_UDisc>("E_UText_UDisc")));
    v.push(marked!(E_UText_UExpr, ops::<E_UText_UExpr>("E_UText_UExpr")));
    v.push(marked!(E_UText_UStruct, ops::<E_UText_UStruct>("E_UText_UStruct")));
    v.push(marked!(E_UText_NU8, ops::<E_UText_NU8>("E_UText_NU8")));
    v.push(marked!(E_UText_NStr, ops::<E_UText_NStr>("E_UText_NStr")));
    v.push(marked!(E_UText_NOpt, ops::<E_UText_NOpt>("E_UText_NOpt")));
    v.push(marked!(E_UText_NNS, ops::<E_UText_NNS>("E_UText_NNS")));
    v.push(marked!(E_UText_NVec, ops::<E_UText_NVec>("E_UText_NVec")));
    v.push(marked!(E_UText_Tup, ops::<E_UText_Tup>("E_UText_Tup")));
    v.push(marked!(E_UText_TSkip, ops::<E_UText_TSkip>("E_UText_TSkip")));
    v.push(marked!(E_UText_T0, ops::<E_UText_T0>("E_UText_T0")));
}
fn types3(v: &mut Vec<Ops>) {
    v.push(marked!(E_UText_Named, ops::<E_UText_Named>("E_UText_Named")));
    v.push(marked!(E_UText_NMix, ops::<E_UText_NMix>("E_UText_NMix")));
    v.push(marked!(E_UText_N0, ops::<E_UText_N0>("E_UText_N0")));
    v.push(marked!(E_UText_NArr, ops::<E_UText_NArr>("E_UText_NArr")));
    v.push(marked!(E_UText_NUnk, ops::<E_UText_NUnk>("E_UText_NUnk")));
    v.push(marked!(E_UText_SUnit, ops::<E_UText_SUnit>("E_UText_SUnit")));
    v.push(marked!(E_UText_SNew, ops::<E_UText_SNew>("E_UText_SNew")));
    v.push(marked!(E_UText_EmA, ops::<E_UText_EmA>("E_UText_EmA")));
    v.push(marked!(E_UText_EmB, ops::<E_UText_EmB>("E_UText_EmB")));
    v.push(marked!(E_UText_NEN, ops::<E_UText_NEN>("E_UText_NEN")));
    v.push(marked!(E_UNum_Unit, ops::<E_UNum_Unit>("E_UNum_Unit")));
    v.push(marked!(E_UNum_UText, ops::<E_UNum_UText>("E_UNum_UText")));
    v.push(marked!(E_UNum_UNum, ops::<E_UNum_UNum>("E_UNum_UNum")));
    v.push(marked!(E_UNum_UDisc, ops::<E_UNum_UDisc>("E_UNum_UDisc")));
    v.push(marked!(E_UNum_UExpr, ops::<E_UNum_UExpr>("E_UNum_UExpr")));
    v.push(marked!(E_UNum_UStruct, ops::<E_UNum_UStruct>("E_UNum_UStruct")));
    v.push(marked!(E_UNum_NU8, ops::<E_UNum_NU8>("E_UNum_NU8")));
    v.push(marked!(E_UNum_NStr, ops::<E_UNum_NStr>("E_UNum_NStr")));
    v.push(marked!(E_UNum_NOpt, ops::<E_UNum_NOpt>("E_UNum_NOpt")));
    v.push(marked!(E_UNum_NNS, ops::<E_UNum_NNS>("E_UNum_NNS")));
    v.push(marked!(E_UNum_NVec, ops::<E_UNum_NVec>("E_UNum_NVec")));
    v.push(marked!(E_UNum_Tup, ops::<E_UNum_Tup>("E_UNum_Tup")));
    v.push(marked!(E_UNum_TSkip, ops::<E_UNum_TSkip>("E_UNum_TSkip")));
    v.push(marked!(E_UNum_T0, ops::<E_UNum_T0>("E_UNum_T0")));
    v.push(marked!(E_UNum_Named, ops::<E_UNum_Named>("E_UNum_Named")));
    v.push(marked!(E_UNum_NMix, ops::<E_UNum_NMix>("E_UNum_NMix")));
    v.push(marked!(E_UNum_N0, ops::<E_UNum_N0>("E_UNum_N0")));
    v.push(marked!(E_UNum_NArr, ops::<E_UNum_NArr>("E_UNum_NArr")));
    v.push(marked!(E_UNum_NUnk, ops::<E_UNum_NUnk>("E_UNum_NUnk")));
    v.push(marked!(E_UNum_SUnit, ops::<E_UNum_SUnit>("E_UNum_SUnit")));
    v.push(marked!(E_UNum_SNew, ops::<E_UNum_SNew>("E_UNum_SNew")));
    v.push(marked!(E_UNum_EmA, ops::<E_UNum_EmA>("E_UNum_EmA")));
    v.push(marked!(E_UNum_EmB, ops::<E_UNum_EmB>("E_UNum_EmB")));
    v.push(marked!(E_UNum_NEN, ops::<E_UNum_NEN>("E_UNum_NEN")));
    v.push(marked!(E_UDisc_Unit, ops::<E_UDisc_Unit>("E_UDisc_Unit")));
    v.push(marked!(E_UDisc_UText, ops::<E_UDisc_UText>("E_UDisc_UText")));
    v.push(marked!(E_UDisc_UNum, ops::<E_UDisc_UNum>("E_UDisc_UNum")));
    v.push(marked!(E_UDisc_UDisc, ops::<E_UDisc_UDisc>("E_UDisc_UDisc")));
    v.push(marked!(E_UDisc_UExpr, ops::<E_UDisc_UExpr>("E_UDisc_UExpr")));
    v.push(marked!(E_UDisc_UStruct, ops::<E_UDisc_UStruct>("E_UDisc_UStruct")));
    v.push(marked!(E_UDisc_NU8, ops::<E_UDisc_NU8>("E_UDisc_NU8")));
    v.push(marked!(E_UDisc_NStr, ops::<E_UDisc_NStr>("E_UDisc_NStr")));
    v.push(marked!(E_UDisc_NOpt, ops::<E_UDisc_NOpt>("E_UDisc_NOpt")));
    v.push(marked!(E_UDisc_NNS, ops::<E_UDisc_NNS>("E_UDisc_NNS")));
    v.push(marked!(E_UDisc_NVec, ops::<E_UDisc_NVec>("E_UDisc_NVec")));
    v.push(marked!(E_UDisc_Tup, ops::<E_UDisc_Tup>("E_UDisc_Tup")));
    v.push(marked!(E_UDisc_TSkip, ops::<E_UDisc_TSkip>("E_UDisc_TSkip")));
    v.push(marked!(E_UDisc_T0, ops::<E_UDisc_T0>("E_UDisc_T0")));
    v.push(marked!(E_UDisc_Named, ops::<E_UDisc_Named>("E_UDisc_Named")));
    v.push(marked!(E_UDisc_NMix, ops::<E_UDisc_NMix>("E_UDisc_NMix")));
}
fn types4(v: &mut Vec<Ops>) {
    v.push(marked!(E_UDisc_N0, ops::<E_UDisc_N0>("E_UDisc_N0")));
    v.push(marked!(E_UDisc_NArr, ops::<E_UDisc_NArr>("E_UDisc_NArr")));
    v.push(marked!(E_UDisc_NUnk, ops::<E_UDisc_NUnk>("E_UDisc_NUnk")));
    v.push(marked!(E_UDisc_SUnit, ops::<E_UDisc_SUnit>("E_UDisc_SUnit")));
    v.push(marked!(E_UDisc_SNew, ops::<E_UDisc_SNew>("E_UDisc_SNew")));
    v.push(marked!(E_UDisc_EmA, ops::<E_UDisc_EmA>("E_UDisc_EmA")));
    v.push(marked!(E_UDisc_EmB, ops::<E_UDisc_EmB>("E_UDisc_EmB")));
    v.push(marked!(E_UDisc_NEN, ops::<E_UDisc_NEN>("E_UDisc_NEN")));
    v.push(marked!(E_UExpr_Unit, ops::<E_UExpr_Unit>("E_UExpr_Unit")));
    v.push(marked!(E_UExpr_UText, ops::<E_UExpr_UText>("E_UExpr_UText")));
    v.push(marked!(E_UExpr_UNum, ops::<E_UExpr_UNum>("E_UExpr_UNum")));
    v.push(marked!(E_UExpr_UDisc, ops::<E_UExpr_UDisc>("E_UExpr_UDisc")));
    v.push(marked!(E_UExpr_UExpr, ops::<E_UExpr_UExpr>("E_UExpr_UExpr")));
    v.push(marked!(E_UExpr_UStruct, ops::<E_UExpr_UStruct>("E_UExpr_UStruct")));
    v.push(marked!(E_UExpr_NU8, ops::<E_UExpr_NU8>("E_UExpr_NU8")));
    v.push(marked!(E_UExpr_NStr, ops::<E_UExpr_NStr>("E_UExpr_NStr")));
    v.push(marked!(E_UExpr_NOpt, ops::<E_UExpr_NOpt>("E_UExpr_NOpt")));
    v.push(marked!(E_UExpr_NNS, ops::<E_UExpr_NNS>("E_UExpr_NNS")));
    v.push(marked!(E_UExpr_NVec, ops::<E_UExpr_NVec>("E_UExpr_NVec")));
    v.push(marked!(E_UExpr_Tup, ops::<E_UExpr_Tup>("E_UExpr_Tup")));
    v.push(marked!(E_UExpr_TSkip, ops::<E_UExpr_TSkip>("E_UExpr_TSkip")));
    v.push(marked!(E_UExpr_T0, ops::<E_UExpr_T0>("E_UExpr_T0")));
    v.push(marked!(E_UExpr_Named, ops::<E_UExpr_Named>("E_UExpr_Named")));
    v.push(marked!(E_UExpr_NMix, ops::<E_UExpr_NMix>("E_UExpr_NMix")));
    v.push(marked!(E_UExpr_N0, ops::<E_UExpr_N0>("E_UExpr_N0")));
    v.push(marked!(E_UExpr_NArr, ops::<E_UExpr_NArr>("E_UExpr_NArr")));
    v.push(marked!(E_UExpr_NUnk, ops::<E_UExpr_NUnk>("E_UExpr_NUnk")));
    v.push(marked!(E_UExpr_SUnit, ops::<E_UExpr_SUnit>("E_UExpr_SUnit")));
    v.push(marked!(E_UExpr_SNew, ops::<E_UExpr_SNew>("E_UExpr_SNew")));
    v.push(marked!(E_UExpr_EmA, ops::<E_UExpr_EmA>("E_UExpr_EmA")));
    v.push(marked!(E_UExpr_EmB, ops::<E_UExpr_EmB>("E_UExpr_EmB")));
    v.push(marked!(E_UExpr_NEN, ops::<E_UExpr_NEN>("E_UExpr_NEN")));
    v.push(marked!(E_UStruct_Unit, ops::<E_UStruct_Unit>("E_UStruct_Unit")));
    v.push(marked!(E_UStruct_UText, ops::<E_UStruct_UText>("E_UStruct_UText")));
    v.push(marked!(E_UStruct_UNum, ops::<E_UStruct_UNum>("E_UStruct_UNum")));
    v.push(marked!(E_UStruct_UDisc, ops::<E_UStruct_UDisc>("E_UStruct_UDisc")));
    v.push(marked!(E_UStruct_UExpr, ops::<E_UStruct_UExpr>("E_UStruct_UExpr")));
    v.push(marked!(E_UStruct_UStruct, ops::<E_UStruct_UStruct>("E_UStruct_UStruct")));
    v.push(marked!(E_UStruct_NU8, ops::<E_UStruct_NU8>("E_UStruct_NU8")));
    v.push(marked!(E_UStruct_NStr, ops::<E_UStruct_NStr>("E_UStruct_NStr")));
    v.push(marked!(E_UStruct_NOpt, ops::<E_UStruct_NOpt>("E_UStruct_NOpt")));
    v.push(marked!(E_UStruct_NNS, ops::<E_UStruct_NNS>("E_UStruct_NNS")));
    v.push(marked!(E_UStruct_NVec, ops::<E_UStruct_NVec>("E_UStruct_NVec")));
    v.push(marked!(E_UStruct_Tup, ops::<E_UStruct_Tup>("E_UStruct_Tup")));
    v.push(marked!(E_UStruct_TSkip, ops::<E_UStruct_TSkip>("E_UStruct_TSkip")));
    v.push(marked!(E_UStruct_T0, ops::<E_UStruct_T0>("E_UStruct_T0")));
    v.push(marked!(E_UStruct_Named, ops::<E_UStruct_Named>("E_UStruct_Named")));
    v.push(marked!(E_UStruct_NMix, ops::<E_UStruct_NMix>("E_UStruct_NMix")));
    v.push(marked!(E_UStruct_N0, ops::<E_UStruct_N0>("E_UStruct_N0")));
    v.push(marked!(E_UStruct_NArr, ops::<E_UStruct_NArr>("E_UStruct_NArr")));
}
fn types5(v: &mut Vec<Ops>) {
    v.push(marked!(E_UStruct_NUnk, ops::<E_UStruct_NUnk>("E_UStruct_NUnk")));
    v.push(marked!(E_UStruct_SUnit, ops::<E_UStruct_SUnit>("E_UStruct_SUnit")));
    v.push(marked!(E_UStruct_SNew, ops::<E_UStruct_SNew>("E_UStruct_SNew")));
    v.push(marked!(E_UStruct_EmA, ops::<E_UStruct_EmA>("E_UStruct_EmA")));
    v.push(marked!(E_UStruct_EmB, ops::<E_UStruct_EmB>("E_UStruct_EmB")));
    v.push(marked!(E_UStruct_NEN, ops::<E_UStruct_NEN>("E_UStruct_NEN")));
    v.push(marked!(E_NU8_Unit, ops::<E_NU8_Unit>("E_NU8_Unit")));
    v.push(marked!(E_NU8_UText, ops::<E_NU8_UText>("E_NU8_UText")));
    v.push(marked!(E_NU8_UNum, ops::<E_NU8_UNum>("E_NU8_UNum")));
    v.push(marked!(E_NU8_UDisc, ops::<E_NU8_UDisc>("E_NU8_UDisc")));
    v.push(marked!(E_NU8_UExpr, ops::<E_NU8_UExpr>("E_NU8_UExpr")));
    v.push(marked!(E_NU8_UStruct, ops::<E_NU8_UStruct>("E_NU8_UStruct")));
    v.push(marked!(E_NU8_NU8, ops::<E_NU8_NU8>("E_NU8_NU8")));
    v.push(marked!(E_NU8_NStr, ops::<E_NU8_NStr>("E_NU8_NStr")));
    v.push(marked!(E_NU8_NOpt, ops::<E_NU8_NOpt>("E_NU8_NOpt")));
    v.push(marked!(E_NU8_NNS, ops::<E_NU8_NNS>("E_NU8_NNS")));
    v.push(marked!(E_NU8_NVec, ops::<E_NU8_NVec>("E_NU8_NVec")));
    v.push(marked!(E_NU8_Tup, ops::<E_NU8_Tup>("E_NU8_Tup")));
    v.push(marked!(E_NU8_TSkip, ops::<E_NU8_TSkip>("E_NU8_TSkip")));
    v.push(marked!(E_NU8_T0, ops::<E_NU8_T0>("E_NU8_T0")));
    v.push(marked!(E_NU8_Named, ops::<E_NU8_Named>("E_NU8_Named")));
    v.push(marked!(E_NU8_NMix, ops::<E_NU8_NMix>("E_NU8_NMix")));
    v.push(marked!(E_NU8_N0, ops::<E_NU8_N0>("E_NU8_N0")));
    v.push(marked!(E_NU8_NArr, ops::<E_NU8_NArr>("E_NU8_NArr")));
    v.push(marked!(E_NU8_NUnk, ops::<E_NU8_NUnk>("E_NU8_NUnk")));
    v.push(marked!(E_NU8_SUnit, ops::<E_NU8_SUnit>("E_NU8_SUnit")));
    v.push(marked!(E_NU8_SNew, ops::<E_NU8_SNew>("E_NU8_SNew")));
    v.push(marked!(E_NU8_EmA, ops::<E_NU8_EmA>("E_NU8_EmA")));
    v.push(marked!(E_NU8_EmB, ops::<E_NU8_EmB>("E_NU8_EmB")));
    v.push(marked!(E_NU8_NEN, ops::<E_NU8_NEN>("E_NU8_NEN")));
    v.push(marked!(E_NStr_Unit, ops::<E_NStr_Unit>("E_NStr_Unit")));
    v.push(marked!(E_NStr_UText, ops::<E_NStr_UText>("E_NStr_UText")));
    v.push(marked!(E_NStr_UNum, ops::<E_NStr_UNum>("E_NStr_UNum")));
    v.push(marked!(E_NStr_UDisc, ops::<E_NStr_UDisc>("E_NStr_UDisc")));
    v.push(marked!(E_NStr_UExpr, ops::<E_NStr_UExpr>("E_NStr_UExpr")));
    v.push(marked!(E_NStr_UStruct, ops::<E_NStr_UStruct>("E_NStr_UStruct")));
    v.push(marked!(E_NStr_NU8, ops::<E_NStr_NU8>("E_NStr_NU8")));
    v.push(marked!(E_NStr_NStr, ops::<E_NStr_NStr>("E_NStr_NStr")));
    v.push(marked!(E_NStr_NOpt, ops::<E_NStr_NOpt>("E_NStr_NOpt")));
    v.push(marked!(E_NStr_NNS, ops::<E_NStr_NNS>("E_NStr_NNS")));
    v.push(marked!(E_NStr_NVec, ops::<E_NStr_NVec>("E_NStr_NVec")));
    v.push(marked!(E_NStr_Tup, ops::<E_NStr_Tup>("E_NStr_Tup")));
    v.push(marked!(E_NStr_TSkip, ops::<E_NStr_TSkip>("E_NStr_TSkip")));
    v.push(marked!(E_NStr_T0, ops::<E_NStr_T0>("E_NStr_T0")));
    v.push(marked!(E_NStr_Named, ops::<E_NStr_Named>("E_NStr_Named")));
    v.push(marked!(E_NStr_NMix, ops::<E_NStr_NMix>("E_NStr_NMix")));
    v.push(marked!(E_NStr_N0, ops::<E_NStr_N0>("E_NStr_N0")));
    v.push(marked!(E_NStr_NArr, ops::<E_NStr_NArr>("E_NStr_NArr")));
    v.push(marked!(E_NStr_NUnk, ops::<E_NStr_NUnk>("E_NStr_NUnk")));
    v.push(marked!(E_NStr_SUnit, ops::<E_NStr_SUnit>("E_NStr_SUnit")));
}
fn types6(v: &mut Vec<Ops>) {
    v.push(marked!(E_NStr_SNew, ops::<E_NStr_SNew>("E_NStr_SNew")));
    v.push(marked!(E_NStr_EmA, ops::<E_NStr_EmA>("E_NStr_EmA")));
    v.push(marked!(E_NStr_EmB, ops::<E_NStr_EmB>("E_NStr_EmB")));
    v.push(marked!(E_NStr_NEN, ops::<E_NStr_NEN>("E_NStr_NEN")));
    v.push(marked!(E_NOpt_Unit, ops::<E_NOpt_Unit>("E_NOpt_Unit")));
    v.push(marked!(E_NOpt_UText, ops::<E_NOpt_UText>("E_NOpt_UText")));
    v.push(marked!(E_NOpt_UNum, ops::<E_NOpt_UNum>("E_NOpt_UNum")));
    v.push(marked!(E_NOpt_UDisc, ops::<E_NOpt_UDisc>("E_NOpt_UDisc")));
    v.push(marked!(E_NOpt_UExpr, ops::<E_NOpt_UExpr>("E_NOpt_UExpr")));
    v.push(marked!(E_NOpt_UStruct, ops::<E_NOpt_UStruct>("E_NOpt_UStruct")));
    v.push(marked!(E_NOpt_NU8, ops::<E_NOpt_NU8>("E_NOpt_NU8")));
    v.push(marked!(E_NOpt_NStr, ops::<E_NOpt_NStr>("E_NOpt_NStr")));
    v.push(marked!(E_NOpt_NOpt, ops::<E_NOpt_NOpt>("E_NOpt_NOpt")));
    v.push(marked!(E_NOpt_NNS, ops::<E_NOpt_NNS>("E_NOpt_NNS")));
    v.push(marked!(E_NOpt_NVec, ops::<E_NOpt_NVec>("E_NOpt_NVec")));
    v.push(marked!(E_NOpt_Tup, ops::<E_NOpt_Tup>("E_NOpt_Tup")));
    v.push(marked!(E_NOpt_TSkip, ops::<E_NOpt_TSkip>("E_NOpt_TSkip")));
    v.push(marked!(E_NOpt_T0, ops::<E_NOpt_T0>("E_NOpt_T0")));
    v.push(marked!(E_NOpt_Named, ops::<E_NOpt_Named>("E_NOpt_Named")));
    v.push(marked!(E_NOpt_NMix, ops::<E_NOpt_NMix>("E_NOpt_NMix")));
    v.push(marked!(E_NOpt_N0, ops::<E_NOpt_N0>("E_NOpt_N0")));
    v.push(marked!(E_NOpt_NArr, ops::<E_NOpt_NArr>("E_NOpt_NArr")));
    v.push(marked!(E_NOpt_NUnk, ops::<E_NOpt_NUnk>("E_NOpt_NUnk")));
    v.push(marked!(E_NOpt_SUnit, ops::<E_NOpt_SUnit>("E_NOpt_SUnit")));
    v.push(marked!(E_NOpt_SNew, ops::<E_NOpt_SNew>("E_NOpt_SNew")));
    v.push(marked!(E_NOpt_EmA, ops::<E_NOpt_EmA>("E_NOpt_EmA")));
    v.push(marked!(E_NOpt_EmB, ops::<E_NOpt_EmB>("E_NOpt_EmB")));
    v.push(marked!(E_NOpt_NEN, ops::<E_NOpt_NEN>("E_NOpt_NEN")));
    v.push(marked!(E_NNS_Unit, ops::<E_NNS_Unit>("E_NNS_Unit")));
    v.push(marked!(E_NNS_UText, ops::<E_NNS_UText>("E_NNS_UText")));
    v.push(marked!(E_NNS_UNum, ops::<E_NNS_UNum>("E_NNS_UNum")));
    v.push(marked!(E_NNS_UDisc, ops::<E_NNS_UDisc>("E_NNS_UDisc")));
    v.push(marked!(E_NNS_UExpr, ops::<E_NNS_UExpr>("E_NNS_UExpr")));
    v.push(marked!(E_NNS_UStruct, ops::<E_NNS_UStruct>("E_NNS_UStruct")));
    v.push(marked!(E_NNS_NU8, ops::<E_NNS_NU8>("E_NNS_NU8")));
    v.push(marked!(E_NNS_NStr, ops::<E_NNS_NStr>("E_NNS_NStr")));
    v.push(marked!(E_NNS_NOpt, ops::<E_NNS_NOpt>("E_NNS_NOpt")));
    v.push(marked!(E_NNS_NNS, ops::<E_NNS_NNS>("E_NNS_NNS")));
    v.push(marked!(E_NNS_NVec, ops::<E_NNS_NVec>("E_NNS_NVec")));
    v.push(marked!(E_NNS_Tup, ops::<E_NNS_Tup>("E_NNS_Tup")));
    v.push(marked!(E_NNS_TSkip, ops::<E_NNS_TSkip>("E_NNS_TSkip")));
    v.push(marked!(E_NNS_T0, ops::<E_NNS_T0>("E_NNS_T0")));
    v.push(marked!(E_NNS_Named, ops::<E_NNS_Named>("E_NNS_Named")));
    v.push(marked!(E_NNS_NMix, ops::<E_NNS_NMix>("E_NNS_NMix")));
    v.push(marked!(E_NNS_N0, ops::<E_NNS_N0>("E_NNS_N0")));
    v.push(marked!(E_NNS_NArr, ops::<E_NNS_NArr>("E_NNS_NArr")));
    v.push(marked!(E_NNS_NUnk, ops::<E_NNS_NUnk>("E_NNS_NUnk")));
    v.push(marked!(E_NNS_SUnit, ops::<E_NNS_SUnit>("E_NNS_SUnit")));
    v.push(marked!(E_NNS_SNew, ops::<E_NNS_SNew>("E_NNS_SNew")));
    v.push(marked!(E_NNS_EmA, ops::<E_NNS_EmA>("E_NNS_EmA")));
}
fn types7(v: &mut Vec<Ops>) {
    v.push(marked!(E_NNS_EmB, ops::<E_NNS_EmB>("E_NNS_EmB")));
    v.push(marked!(E_NNS_NEN, ops::<E_NNS_NEN>("E_NNS_NEN")));
    v.push(marked!(E_NVec_Unit, ops::<E_NVec_Unit>("E_NVec_Unit")));
    v.push(marked!(E_NVec_UText, ops::<E_NVec_UText>("E_NVec_UText")));
    v.push(marked!(E_NVec_UNum, ops::<E_NVec_UNum>("E_NVec_UNum")));
    v.push(marked!(E_NVec_UDisc, ops::<E_NVec_UDisc>("E_NVec_UDisc")));
    v.push(marked!(E_NVec_UExpr, ops::<E_NVec_UExpr>("E_NVec_UExpr")));
    v.push(marked!(E_NVec_UStruct, ops::<E_NVec_UStruct>("E_NVec_UStruct")));
    v.push(marked!(E_NVec_NU8, ops::<E_NVec_NU8>("E_NVec_NU8")));
    v.push(marked!(E_NVec_NStr, ops::<E_NVec_NStr>("E_NVec_NStr")));
    v.push(marked!(E_NVec_NOpt, ops::<E_NVec_NOpt>("E_NVec_NOpt")));
    v.push(marked!(E_NVec_NNS, ops::<E_NVec_NNS>("E_NVec_NNS")));
    v.push(marked!(E_NVec_NVec, ops::<E_NVec_NVec>("E_NVec_NVec")));
    v.push(marked!(E_NVec_Tup, ops::<E_NVec_Tup>("E_NVec_Tup")));
    v.push(marked!(E_NVec_TSkip, ops::<E_NVec_TSkip>("E_NVec_TSkip")));
    v.push(marked!(E_NVec_T0, ops::<E_NVec_T0>("E_NVec_T0")));
    v.push(marked!(E_NVec_Named, ops::<E_NVec_Named>("E_NVec_Named")));
    v.push(marked!(E_NVec_NMix, ops::<E_NVec_NMix>("E_NVec_NMix")));
    v.push(marked!(E_NVec_N0, ops::<E_NVec_N0>("E_NVec_N0")));
    v.push(marked!(E_NVec_NArr, ops::<E_NVec_NArr>("E_NVec_NArr")));
    v.push(marked!(E_NVec_NUnk, ops::<E_NVec_NUnk>("E_NVec_NUnk")));
    v.push(marked!(E_NVec_SUnit, ops::<E_NVec_SUnit>("E_NVec_SUnit")));
    v.push(marked!(E_NVec_SNew, ops::<E_NVec_SNew>("E_NVec_SNew")));
    v.push(marked!(E_NVec_EmA, ops::<E_NVec_EmA>("E_NVec_EmA")));
    v.push(marked!(E_NVec_EmB, ops::<E_NVec_EmB>("E_NVec_EmB")));
    v.push(marked!(E_NVec_NEN, ops::<E_NVec_NEN>("E_NVec_NEN")));
    v.push(marked!(E_Tup_Unit, ops::<E_Tup_Unit>("E_Tup_Unit")));
    v.push(marked!(E_Tup_UText, ops::<E_Tup_UText>("E_Tup_UText")));
    v.push(marked!(E_Tup_UNum, ops::<E_Tup_UNum>("E_Tup_UNum")));
    v.push(marked!(E_Tup_UDisc, ops::<E_Tup_UDisc>("E_Tup_UDisc")));
    v.push(marked!(E_Tup_UExpr, ops::<E_Tup_UExpr>("E_Tup_UExpr")));
    v.push(marked!(E_Tup_UStruct, ops::<E_Tup_UStruct>("E_Tup_UStruct")));
    v.push(marked!(E_Tup_NU8, ops::<E_Tup_NU8>("E_Tup_NU8")));
    v.push(marked!(E_Tup_NStr, ops::<E_Tup_NStr>("E_Tup_NStr")));
    v.push(marked!(E_Tup_NOpt, ops::<E_Tup_NOpt>("E_Tup_NOpt")));
    v.push(marked!(E_Tup_NNS, ops::<E_Tup_NNS>("E_Tup_NNS")));
    v.push(marked!(E_Tup_NVec, ops::<E_Tup_NVec>("E_Tup_NVec")));
    v.push(marked!(E_Tup_Tup, ops::<E_Tup_Tup>("E_Tup_Tup")));
    v.push(marked!(E_Tup_TSkip, ops::<E_Tup_TSkip>("E_Tup_TSkip")));
    v.push(marked!(E_Tup_T0, ops::<E_Tup_T0>("E_Tup_T0")));
    v.push(marked!(E_Tup_Named, ops::<E_Tup_Named>("E_Tup_Named")));
    v.push(marked!(E_Tup_NMix, ops::<E_Tup_NMix>("E_Tup_NMix")));
    v.push(marked!(E_Tup_N0, ops::<E_Tup_N0>("E_Tup_N0")));
    v.push(marked!(E_Tup_NArr, ops::<E_Tup_NArr>("E_Tup_NArr")));
    v.push(marked!(E_Tup_NUnk, ops::<E_Tup_NUnk>("E_Tup_NUnk")));
    v.push(marked!(E_Tup_SUnit, ops::<E_Tup_SUnit>("E_Tup_SUnit")));
    v.push(marked!(E_Tup_SNew, ops::<E_Tup_SNew>("E_Tup_SNew")));
    v.push(marked!(E_Tup_EmA, ops::<E_Tup_EmA>("E_Tup_EmA")));
    v.push(marked!(E_Tup_EmB, ops::<E_Tup_EmB>("E_Tup_EmB")));
    v.push(marked!(E_Tup_NEN, ops::<E_Tup_NEN>("E_Tup_NEN")));
}
fn types8(v: &mut Vec<Ops>) {
    v.push(marked!(E_TSkip_Unit, ops::<E_TSkip_Unit>("E_TSkip_Unit")));
    v.push(marked!(E_TSkip_UText, ops::<E_TSkip_UText>("E_TSkip_UText")));
    v.push(marked!(E_TSkip_UNum, ops::<E_TSkip_UNum>("E_TSkip_UNum")));
    v.push(marked!(E_TSkip_UDisc, ops::<E_TSkip_UDisc>("E_TSkip_UDisc")));
    v.push(marked!(E_TSkip_UExpr, ops::<E_TSkip_UExpr>("E_TSkip_UExpr")));
    v.push(marked!(E_TSkip_UStruct, ops::<E_TSkip_UStruct>("E_TSkip_UStruct")));
    v.push(marked!(E_TSkip_NU8, ops::<E_TSkip_NU8>("E_TSkip_NU8")));
    v.push(marked!(E_TSkip_NStr, ops::<E_TSkip_NStr>("E_TSkip_NStr")));
    v.push(marked!(E_TSkip_NOpt, ops::<E_TSkip_NOpt>("E_TSkip_NOpt")));
    v.push(marked!(E_TSkip_NNS, ops::<E_TSkip_NNS>("E_TSkip_NNS")));
    v.push(marked!(E_TSkip_NVec, ops::<E_TSkip_NVec>("E_TSkip_NVec")));
    v.push(marked!(E_TSkip_Tup, ops::<E_TSkip_Tup>("E_TSkip_Tup")));
    v.push(marked!(E_TSkip_TSkip, ops::<E_TSkip_TSkip>("E_TSkip_TSkip")));
    v.push(marked!(E_TSkip_T0, ops::<E_TSkip_T0>("E_TSkip_T0")));
    v.push(marked!(E_TSkip_Named, ops::<E_TSkip_Named>("E_TSkip_Named")));
    v.push(marked!(E_TSkip_NMix, ops::<E_TSkip_NMix>("E_TSkip_NMix")));
    v.push(marked!(E_TSkip_N0, ops::<E_TSkip_N0>("E_TSkip_N0")));
    v.push(marked!(E_TSkip_NArr, ops::<E_TSkip_NArr>("E_TSkip_NArr")));
    v.push(marked!(E_TSkip_NUnk, ops::<E_TSkip_NUnk>("E_TSkip_NUnk")));
    v.push(marked!(E_TSkip_SUnit, ops::<E_TSkip_SUnit>("E_TSkip_SUnit")));
    v.push(marked!(E_TSkip_SNew, ops::<E_TSkip_SNew>("E_TSkip_SNew")));
    v.push(marked!(E_TSkip_EmA, ops::<E_TSkip_EmA>("E_TSkip_EmA")));
    v.push(marked!(E_TSkip_EmB, ops::<E_TSkip_EmB>("E_TSkip_EmB")));
    v.push(marked!(E_TSkip_NEN, ops::<E_TSkip_NEN>("E_TSkip_NEN")));
    v.push(marked!(E_T0_Unit, ops::<E_T0_Unit>("E_T0_Unit")));
    v.push(marked!(E_T0_UText, ops::<E_T0_UText>("E_T0_UText")));
    v.push(marked!(E_T0_UNum, ops::<E_T0_UNum>("E_T0_UNum")));
    v.push(marked!(E_T0_UDisc, ops::<E_T0_UDisc>("E_T0_UDisc")));
    v.push(marked!(E_T0_UExpr, ops::<E_T0_UExpr>("E_T0_UExpr")));
    v.push(marked!(E_T0_UStruct, ops::<E_T0_UStruct>("E_T0_UStruct")));
    v.push(marked!(E_T0_NU8, ops::<E_T0_NU8>("E_T0_NU8")));
    v.push(marked!(E_T0_NStr, ops::<E_T0_NStr>("E_T0_NStr")));
    v.push(marked!(E_T0_NOpt, ops::<E_T0_NOpt>("E_T0_NOpt")));
    v.push(marked!(E_T0_NNS, ops::<E_T0_NNS>("E_T0_NNS")));
    v.push(marked!(E_T0_NVec, ops::<E_T0_NVec>("E_T0_NVec")));
    v.push(marked!(E_T0_Tup, ops::<E_T0_Tup>("E_T0_Tup")));
    v.push(marked!(E_T0_TSkip, ops::<E_T0_TSkip>("E_T0_TSkip")));
    v.push(marked!(E_T0_T0, ops::<E_T0_T0>("E_T0_T0")));
    v.push(marked!(E_T0_Named, ops::<E_T0_Named>("E_T0_Named")));
    v.push(marked!(E_T0_NMix, ops::<E_T0_NMix>("E_T0_NMix")));
    v.push(marked!(E_T0_N0, ops::<E_T0_N0>("E_T0_N0")));
    v.push(marked!(E_T0_NArr, ops::<E_T0_NArr>("E_T0_NArr")));
    v.push(marked!(E_T0_NUnk, ops::<E_T0_NUnk>("E_T0_NUnk")));
    v.push(marked!(E_T0_SUnit, ops::<E_T0_SUnit>("E_T0_SUnit")));
    v.push(marked!(E_T0_SNew, ops::<E_T0_SNew>("E_T0_SNew")));
    v.push(marked!(E_T0_EmA, ops::<E_T0_EmA>("E_T0_EmA")));
    v.push(marked!(E_T0_EmB, ops::<E_T0_EmB>("E_T0_EmB")));
    v.push(marked!(E_T0_NEN, ops::<E_T0_NEN>("E_T0_NEN")));
    v.push(marked!(E_Named_Unit, ops::<E_Named_Unit>("E_Named_Unit")));
    v.push(marked!(E_Named_UText, ops::<E_Named_UText>("E_Named_UText")));
}
fn types9(v: &mut Vec<Ops>) {
    v.push(marked!(E_Named_UNum, ops::<E_Named_UNum>("E_Named_UNum")));
    v.push(marked!(E_Named_UDisc, ops::<E_Named_UDisc>("E_Named_UDisc")));
    v.push(marked!(E_Named_UExpr, ops::<E_Named_UExpr>("E_Named_UExpr")));
    v.push(marked!(E_Named_UStruct, ops::<E_Named_UStruct>("E_Named_UStruct")));
    v.push(marked!(E_Named_NU8, ops::<E_Named_NU8>("E_Named_NU8")));
    v.push(marked!(E_Named_NStr, ops::<E_Named_NStr>("E_Named_NStr")));
    v.push(marked!(E_Named_NOpt, ops::<E_Named_NOpt>("E_Named_NOpt")));
    v.push(marked!(E_Named_NNS, ops::<E_Named_NNS>("E_Named_NNS")));
    v.push(marked!(E_Named_NVec, ops::<E_Named_NVec>("E_Named_NVec")));
    v.push(marked!(E_Named_Tup, ops::<E_Named_Tup>("E_Named_Tup")));
    v.push(marked!(E_Named_TSkip, ops::<E_Named_TSkip>("E_Named_TSkip")));
    v.push(marked!(E_Named_T0, ops::<E_Named_T0>("E_Named_T0")));
    v.push(marked!(E_Named_Named, ops::<E_Named_Named>("E_Named_Named")));
    v.push(marked!(E_Named_NMix, ops::<E_Named_NMix>("E_Named_NMix")));
    v.push(marked!(E_Named_N0, ops::<E_Named_N0>("E_Named_N0")));
    v.push(marked!(E_Named_NArr, ops::<E_Named_NArr>("E_Named_NArr")));
    v.push(marked!(E_Named_NUnk, ops::<E_Named_NUnk>("E_Named_NUnk")));
    v.push(marked!(E_Named_SUnit, ops::<E_Named_SUnit>("E_Named_SUnit")));
    v.push(marked!(E_Named_SNew, ops::<E_Named_SNew>("E_Named_SNew")));
    v.push(marked!(E_Named_EmA, ops::<E_Named_EmA>("E_Named_EmA")));
    v.push(marked!(E_Named_EmB, ops::<E_Named_EmB>("E_Named_EmB")));
    v.push(marked!(E_Named_NEN, ops::<E_Named_NEN>("E_Named_NEN")));
    v.push(marked!(E_NMix_Unit, ops::<E_NMix_Unit>("E_NMix_Unit")));
    v.push(marked!(E_NMix_UText, ops::<E_NMix_UText>("E_NMix_UText")));
    v.push(marked!(E_NMix_UNum, ops::<E_NMix_UNum>("E_NMix_UNum")));
    v.push(marked!(E_NMix_UDisc, ops::<E_NMix_UDisc>("E_NMix_UDisc")));
    v.push(marked!(E_NMix_UExpr, ops::<E_NMix_UExpr>("E_NMix_UExpr")));
    v.push(marked!(E_NMix_UStruct, ops::<E_NMix_UStruct>("E_NMix_UStruct")));
    v.push(marked!(E_NMix_NU8, ops::<E_NMix_NU8>("E_NMix_NU8")));
    v.push(marked!(E_NMix_NStr, ops::<E_NMix_NStr>("E_NMix_NStr")));
    v.push(marked!(E_NMix_NOpt, ops::<E_NMix_NOpt>("E_NMix_NOpt")));
    v.push(marked!(E_NMix_NNS, ops::<E_NMix_NNS>("E_NMix_NNS")));
    v.push(marked!(E_NMix_NVec, ops::<E_NMix_NVec>("E_NMix_NVec")));
    v.push(marked!(E_NMix_Tup, ops::<E_NMix_Tup>("E_NMix_Tup")));
    v.push(marked!(E_NMix_TSkip, ops::<E_NMix_TSkip>("E_NMix_TSkip")));
    v.push(marked!(E_NMix_T0, ops::<E_NMix_T0>("E_NMix_T0")));
    v.push(marked!(E_NMix_Named, ops::<E_NMix_Named>("E_NMix_Named")));
    v.push(marked!(E_NMix_NMix, ops::<E_NMix_NMix>("E_NMix_NMix")));
    v.push(marked!(E_NMix_N0, ops::<E_NMix_N0>("E_NMix_N0")));
    v.push(marked!(E_NMix_NArr, ops::<E_NMix_NArr>("E_NMix_NArr")));
    v.push(marked!(E_NMix_NUnk, ops::<E_NMix_NUnk>("E_NMix_NUnk")));
    v.push(marked!(E_NMix_SUnit, ops::<E_NMix_SUnit>("E_NMix_SUnit")));
    v.push(marked!(E_NMix_SNew, ops::<E_NMix_SNew>("E_NMix_SNew")));
    v.push(marked!(E_NMix_EmA, ops::<E_NMix_EmA>("E_NMix_EmA")));
    v.push(marked!(E_NMix_EmB, ops::<E_NMix_EmB>("E_NMix_EmB")));
    v.push(marked!(E_NMix_NEN, ops::<E_NMix_NEN>("E_NMix_NEN")));
    v.push(marked!(E_N0_Unit, ops::<E_N0_Unit>("E_N0_Unit")));
    v.push(marked!(E_N0_UText, ops::<E_N0_UText>("E_N0_UText")));
    v.push(marked!(E_N0_UNum, ops::<E_N0_UNum>("E_N0_UNum")));
    v.push(marked!(E_N0_UDisc, ops::<E_N0_UDisc>("E_N0_UDisc")));
}
fn types10(v: &mut Vec<Ops>) {
    v.push(marked!(E_N0_UExpr, ops::<E_N0_UExpr>("E_N0_UExpr")));
    v.push(marked!(E_N0_UStruct, ops::<E_N0_UStruct>("E_N0_UStruct")));
    v.push(marked!(E_N0_NU8, ops::<E_N0_NU8>("E_N0_NU8")));
    v.push(marked!(E_N0_NStr, ops::<E_N0_NStr>("E_N0_NStr")));
    v.push(marked!(E_N0_NOpt, ops::<E_N0_NOpt>("E_N0_NOpt")));
    v.push(marked!(E_N0_NNS, ops::<E_N0_NNS>("E_N0_NNS")));
    v.push(marked!(E_N0_NVec, ops::<E_N0_NVec>("E_N0_NVec")));
    v.push(marked!(E_N0_Tup, ops::<E_N0_Tup>("E_N0_Tup")));
    v.push(marked!(E_N0_TSkip, ops::<E_N0_TSkip>("E_N0_TSkip")));
    v.push(marked!(E_N0_T0, ops::<E_N0_T0>("E_N0_T0")));
    v.push(marked!(E_N0_Named, ops::<E_N0_Named>("E_N0_Named")));
    v.push(marked!(E_N0_NMix, ops::<E_N0_NMix>("E_N0_NMix")));
    v.push(marked!(E_N0_N0, ops::<E_N0_N0>("E_N0_N0")));
    v.push(marked!(E_N0_NArr, ops::<E_N0_NArr>("E_N0_NArr")));
    v.push(marked!(E_N0_NUnk, ops::<E_N0_NUnk>("E_N0_NUnk")));
    v.push(marked!(E_N0_SUnit, ops::<E_N0_SUnit>("E_N0_SUnit")));
    v.push(marked!(E_N0_SNew, ops::<E_N0_SNew>("E_N0_SNew")));
    v.push(marked!(E_N0_EmA, ops::<E_N0_EmA>("E_N0_EmA")));
    v.push(marked!(E_N0_EmB, ops::<E_N0_EmB>("E_N0_EmB")));
    v.push(marked!(E_N0_NEN, ops::<E_N0_NEN>("E_N0_NEN")));
    v.push(marked!(E_NArr_Unit, ops::<E_NArr_Unit>("E_NArr_Unit")));
    v.push(marked!(E_NArr_UText, ops::<E_NArr_UText>("E_NArr_UText")));
    v.push(marked!(E_NArr_UNum, ops::<E_NArr_UNum>("E_NArr_UNum")));
    v.push(marked!(E_NArr_UDisc, ops::<E_NArr_UDisc>("E_NArr_UDisc")));
    v.push(marked!(E_NArr_UExpr, ops::<E_NArr_UExpr>("E_NArr_UExpr")));
    v.push(marked!(E_NArr_UStruct, ops::<E_NArr_UStruct>("E_NArr_UStruct")));
    v.push(marked!(E_NArr_NU8, ops::<E_NArr_NU8>("E_NArr_NU8")));
    v.push(marked!(E_NArr_NStr, ops::<E_NArr_NStr>("E_NArr_NStr")));
    v.push(marked!(E_NArr_NOpt, ops::<E_NArr_NOpt>("E_NArr_NOpt")));
    v.push(marked!(E_NArr_NNS, ops::<E_NArr_NNS>("E_NArr_NNS")));
    v.push(marked!(E_NArr_NVec, ops::<E_NArr_NVec>("E_NArr_NVec")));
    v.push(marked!(E_NArr_Tup, ops::<E_NArr_Tup>("E_NArr_Tup")));
    v.push(marked!(E_NArr_TSkip, ops::<E_NArr_TSkip>("E_NArr_TSkip")));
    v.push(marked!(E_NArr_T0, ops::<E_NArr_T0>("E_NArr_T0")));
    v.push(marked!(E_NArr_Named, ops::<E_NArr_Named>("E_NArr_Named")));
    v.push(marked!(E_NArr_NMix, ops::<E_NArr_NMix>("E_NArr_NMix")));
    v.push(marked!(E_NArr_N0, ops::<E_NArr_N0>("E_NArr_N0")));
    v.push(marked!(E_NArr_NArr, ops::<E_NArr_NArr>("E_NArr_NArr")));
    v.push(marked!(E_NArr_NUnk, ops::<E_NArr_NUnk>("E_NArr_NUnk")));
    v.push(marked!(E_NArr_SUnit, ops::<E_NArr_SUnit>("E_NArr_SUnit")));
    v.push(marked!(E_NArr_SNew, ops::<E_NArr_SNew>("E_NArr_SNew")));
    v.push(marked!(E_NArr_EmA, ops::<E_NArr_EmA>("E_NArr_EmA")));
    v.push(marked!(E_NArr_EmB, ops::<E_NArr_EmB>("E_NArr_EmB")));
    v.push(marked!(E_NArr_NEN, ops::<E_NArr_NEN>("E_NArr_NEN")));
    v.push(marked!(E_NUnk_Unit, ops::<E_NUnk_Unit>("E_NUnk_Unit")));
    v.push(marked!(E_NUnk_UText, ops::<E_NUnk_UText>("E_NUnk_UText")));
    v.push(marked!(E_NUnk_UNum, ops::<E_NUnk_UNum>("E_NUnk_UNum")));
    v.push(marked!(E_NUnk_UDisc, ops::<E_NUnk_UDisc>("E_NUnk_UDisc")));
    v.push(marked!(E_NUnk_UExpr, ops::<E_NUnk_UExpr>("E_NUnk_UExpr")));
    v.push(marked!(E_NUnk_UStruct, ops::<E_NUnk_UStruct>("E_NUnk_UStruct")));
}
fn types11(v: &mut Vec<Ops>) {
    v.push(marked!(E_NUnk_NU8, ops::<E_NUnk_NU8>("E_NUnk_NU8")));
    v.push(marked!(E_NUnk_NStr, ops::<E_NUnk_NStr>("E_NUnk_NStr")));
    v.push(marked!(E_NUnk_NOpt, ops::<E_NUnk_NOpt>("E_NUnk_NOpt")));
    v.push(marked!(E_NUnk_NNS, ops::<E_NUnk_NNS>("E_NUnk_NNS")));
    v.push(marked!(E_NUnk_NVec, ops::<E_NUnk_NVec>("E_NUnk_NVec")));
    v.push(marked!(E_NUnk_Tup, ops::<E_NUnk_Tup>("E_NUnk_Tup")));
    v.push(marked!(E_NUnk_TSkip, ops::<E_NUnk_TSkip>("E_NUnk_TSkip")));
    v.push(marked!(E_NUnk_T0, ops::<E_NUnk_T0>("E_NUnk_T0")));
    v.push(marked!(E_NUnk_Named, ops::<E_NUnk_Named>("E_NUnk_Named")));
    v.push(marked!(E_NUnk_NMix, ops::<E_NUnk_NMix>("E_NUnk_NMix")));
    v.push(marked!(E_NUnk_N0, ops::<E_NUnk_N0>("E_NUnk_N0")));
    v.push(marked!(E_NUnk_NArr, ops::<E_NUnk_NArr>("E_NUnk_NArr")));
    v.push(marked!(E_NUnk_NUnk, ops::<E_NUnk_NUnk>("E_NUnk_NUnk")));
    v.push(marked!(E_NUnk_SUnit, ops::<E_NUnk_SUnit>("E_NUnk_SUnit")));
    v.push(marked!(E_NUnk_SNew, ops::<E_NUnk_SNew>("E_NUnk_SNew")));
    v.push(marked!(E_NUnk_EmA, ops::<E_NUnk_EmA>("E_NUnk_EmA")));
    v.push(marked!(E_NUnk_EmB, ops::<E_NUnk_EmB>("E_NUnk_EmB")));
    v.push(marked!(E_NUnk_NEN, ops::<E_NUnk_NEN>("E_NUnk_NEN")));
    v.push(marked!(E_SUnit_Unit, ops::<E_SUnit_Unit>("E_SUnit_Unit")));
    v.push(marked!(E_SUnit_UText, ops::<E_SUnit_UText>("E_SUnit_UText")));
    v.push(marked!(E_SUnit_UNum, ops::<E_SUnit_UNum>("E_SUnit_UNum")));
    v.push(marked!(E_SUnit_UDisc, ops::<E_SUnit_UDisc>("E_SUnit_UDisc")));
    v.push(marked!(E_SUnit_UExpr, ops::<E_SUnit_UExpr>("E_SUnit_UExpr")));
    v.push(marked!(E_SUnit_UStruct, ops::<E_SUnit_UStruct>("E_SUnit_UStruct")));
    v.push(marked!(E_SUnit_NU8, ops::<E_SUnit_NU8>("E_SUnit_NU8")));
    v.push(marked!(E_SUnit_NStr, ops::<E_SUnit_NStr>("E_SUnit_NStr")));
    v.push(marked!(E_SUnit_NOpt, ops::<E_SUnit_NOpt>("E_SUnit_NOpt")));
    v.push(marked!(E_SUnit_NNS, ops::<E_SUnit_NNS>("E_SUnit_NNS")));
    v.push(marked!(E_SUnit_NVec, ops::<E_SUnit_NVec>("E_SUnit_NVec")));
    v.push(marked!(E_SUnit_Tup, ops::<E_SUnit_Tup>("E_SUnit_Tup")));
    v.push(marked!(E_SUnit_TSkip, ops::<E_SUnit_TSkip>("E_SUnit_TSkip")));
    v.push(marked!(E_SUnit_T0, ops::<E_SUnit_T0>("E_SUnit_T0")));
    v.push(marked!(E_SUnit_Named, ops::<E_SUnit_Named>("E_SUnit_Named")));
    v.push(marked!(E_SUnit_NMix, ops::<E_SUnit_NMix>("E_SUnit_NMix")));
    v.push(marked!(E_SUnit_N0, ops::<E_SUnit_N0>("E_SUnit_N0")));
    v.push(marked!(E_SUnit_NArr, ops::<E_SUnit_NArr>("E_SUnit_NArr")));
    v.push(marked!(E_SUnit_NUnk, ops::<E_SUnit_NUnk>("E_SUnit_NUnk")));
    v.push(marked!(E_SUnit_SUnit, ops::<E_SUnit_SUnit>("E_SUnit_SUnit")));
    v.push(marked!(E_SUnit_SNew, ops::<E_SUnit_SNew>("E_SUnit_SNew")));
    v.push(marked!(E_SUnit_EmA, ops::<E_SUnit_EmA>("E_SUnit_EmA")));
    v.push(marked!(E_SUnit_EmB, ops::<E_SUnit_EmB>("E_SUnit_EmB")));
    v.push(marked!(E_SUnit_NEN, ops::<E_SUnit_NEN>("E_SUnit_NEN")));
    v.push(marked!(E_SNew_Unit, ops::<E_SNew_Unit>("E_SNew_Unit")));
    v.push(marked!(E_SNew_UText, ops::<E_SNew_UText>("E_SNew_UText")));
    v.push(marked!(E_SNew_UNum, ops::<E_SNew_UNum>("E_SNew_UNum")));
    v.push(marked!(E_SNew_UDisc, ops::<E_SNew_UDisc>("E_SNew_UDisc")));
    v.push(marked!(E_SNew_UExpr, ops::<E_SNew_UExpr>("E_SNew_UExpr")));
    v.push(marked!(E_SNew_UStruct, ops::<E_SNew_UStruct>("E_SNew_UStruct")));
    v.push(marked!(E_SNew_NU8, ops::<E_SNew_NU8>("E_SNew_NU8")));
    v.push(marked!(E_SNew_NStr, ops::<E_SNew_NStr>("E_SNew_NStr")));
}
fn types12(v: &mut Vec<Ops>) {
    v.push(marked!(E_SNew_NOpt, ops::<E_SNew_NOpt>("E_SNew_NOpt")));
    v.push(marked!(E_SNew_NNS, ops::<E_SNew_NNS>("E_SNew_NNS")));
    v.push(marked!(E_SNew_NVec, ops::<E_SNew_NVec>("E_SNew_NVec")));
    v.push(marked!(E_SNew_Tup, ops::<E_SNew_Tup>("E_SNew_Tup")));
    v.push(marked!(E_SNew_TSkip, ops::<E_SNew_TSkip>("E_SNew_TSkip")));
    v.push(marked!(E_SNew_T0, ops::<E_SNew_T0>("E_SNew_T0")));
    v.push(marked!(E_SNew_Named, ops::<E_SNew_Named>("E_SNew_Named")));
    v.push(marked!(E_SNew_NMix, ops::<E_SNew_NMix>("E_SNew_NMix")));
    v.push(marked!(E_SNew_N0, ops::<E_SNew_N0>("E_SNew_N0")));
    v.push(marked!(E_SNew_NArr, ops::<E_SNew_NArr>("E_SNew_NArr")));
    v.push(marked!(E_SNew_NUnk, ops::<E_SNew_NUnk>("E_SNew_NUnk")));
    v.push(marked!(E_SNew_SUnit, ops::<E_SNew_SUnit>("E_SNew_SUnit")));
    v.push(marked!(E_SNew_SNew, ops::<E_SNew_SNew>("E_SNew_SNew")));
    v.push(marked!(E_SNew_EmA, ops::<E_SNew_EmA>("E_SNew_EmA")));
    v.push(marked!(E_SNew_EmB, ops::<E_SNew_EmB>("E_SNew_EmB")));
    v.push(marked!(E_SNew_NEN, ops::<E_SNew_NEN>("E_SNew_NEN")));
    v.push(marked!(E_EmA_Unit, ops::<E_EmA_Unit>("E_EmA_Unit")));
    v.push(marked!(E_EmA_UText, ops::<E_EmA_UText>("E_EmA_UText")));
    v.push(marked!(E_EmA_UNum, ops::<E_EmA_UNum>("E_EmA_UNum")));
    v.push(marked!(E_EmA_UDisc, ops::<E_EmA_UDisc>("E_EmA_UDisc")));
    v.push(marked!(E_EmA_UExpr, ops::<E_EmA_UExpr>("E_EmA_UExpr")));
    v.push(marked!(E_EmA_UStruct, ops::<E_EmA_UStruct>("E_EmA_UStruct")));
    v.push(marked!(E_EmA_NU8, ops::<E_EmA_NU8>("E_EmA_NU8")));
    v.push(marked!(E_EmA_NStr, ops::<E_EmA_NStr>("E_EmA_NStr")));
    v.push(marked!(E_EmA_NOpt, ops::<E_EmA_NOpt>("E_EmA_NOpt")));
    v.push(marked!(E_EmA_NNS, ops::<E_EmA_NNS>("E_EmA_NNS")));
    v.push(marked!(E_EmA_NVec, ops::<E_EmA_NVec>("E_EmA_NVec")));
    v.push(marked!(E_EmA_Tup, ops::<E_EmA_Tup>("E_EmA_Tup")));
    v.push(marked!(E_EmA_TSkip, ops::<E_EmA_TSkip>("E_EmA_TSkip")));
    v.push(marked!(E_EmA_T0, ops::<E_EmA_T0>("E_EmA_T0")));
    v.push(marked!(E_EmA_Named, ops::<E_EmA_Named>("E_EmA_Named")));
    v.push(marked!(E_EmA_NMix, ops::<E_EmA_NMix>("E_EmA_NMix")));
    v.push(marked!(E_EmA_N0, ops::<E_EmA_N0>("E_EmA_N0")));
    v.push(marked!(E_EmA_NArr, ops::<E_EmA_NArr>("E_EmA_NArr")));
    v.push(marked!(E_EmA_NUnk, ops::<E_EmA_NUnk>("E_EmA_NUnk")));
    v.push(marked!(E_EmA_SUnit, ops::<E_EmA_SUnit>("E_EmA_SUnit")));
    v.push(marked!(E_EmA_SNew, ops::<E_EmA_SNew>("E_EmA_SNew")));
    v.push(marked!(E_EmA_EmA, ops::<E_EmA_EmA>("E_EmA_EmA")));
    v.push(marked!(E_EmA_EmB, ops::<E_EmA_EmB>("E_EmA_EmB")));
    v.push(marked!(E_EmA_NEN, ops::<E_EmA_NEN>("E_EmA_NEN")));
    v.push(marked!(E_EmB_Unit, ops::<E_EmB_Unit>("E_EmB_Unit")));
    v.push(marked!(E_EmB_UText, ops::<E_EmB_UText>("E_EmB_UText")));
    v.push(marked!(E_EmB_UNum, ops::<E_EmB_UNum>("E_EmB_UNum")));
    v.push(marked!(E_EmB_UDisc, ops::<E_EmB_UDisc>("E_EmB_UDisc")));
    v.push(marked!(E_EmB_UExpr, ops::<E_EmB_UExpr>("E_EmB_UExpr")));
    v.push(marked!(E_EmB_UStruct, ops::<E_EmB_UStruct>("E_EmB_UStruct")));
    v.push(marked!(E_EmB_NU8, ops::<E_EmB_NU8>("E_EmB_NU8")));
    v.push(marked!(E_EmB_NStr, ops::<E_EmB_NStr>("E_EmB_NStr")));
    v.push(marked!(E_EmB_NOpt, ops::<E_EmB_NOpt>("E_EmB_NOpt")));
    v.push(marked!(E_EmB_NNS, ops::<E_EmB_NNS>("E_EmB_NNS")));
}
fn types13(v: &mut Vec<Ops>) {
    v.push(marked!(E_EmB_NVec, ops::<E_EmB_NVec>("E_EmB_NVec")));
    v.push(marked!(E_EmB_Tup, ops::<E_EmB_Tup>("E_EmB_Tup")));
    v.push(marked!(E_EmB_TSkip, ops::<E_EmB_TSkip>("E_EmB_TSkip")));
    v.push(marked!(E_EmB_T0, ops::<E_EmB_T0>("E_EmB_T0")));
    v.push(marked!(E_EmB_Named, ops::<E_EmB_Named>("E_EmB_Named")));
    v.push(marked!(E_EmB_NMix, ops::<E_EmB_NMix>("E_EmB_NMix")));
    v.push(marked!(E_EmB_N0, ops::<E_EmB_N0>("E_EmB_N0")));
    v.push(marked!(E_EmB_NArr, ops::<E_EmB_NArr>("E_EmB_NArr")));
    v.push(marked!(E_EmB_NUnk, ops::<E_EmB_NUnk>("E_EmB_NUnk")));
    v.push(marked!(E_EmB_SUnit, ops::<E_EmB_SUnit>("E_EmB_SUnit")));
    v.push(marked!(E_EmB_SNew, ops::<E_EmB_SNew>("E_EmB_SNew")));
    v.push(marked!(E_EmB_EmA, ops::<E_EmB_EmA>("E_EmB_EmA")));
    v.push(marked!(E_EmB_EmB, ops::<E_EmB_EmB>("E_EmB_EmB")));
    v.push(marked!(E_EmB_NEN, ops::<E_EmB_NEN>("E_EmB_NEN")));
    v.push(marked!(E_NEN_Unit, ops::<E_NEN_Unit>("E_NEN_Unit")));
    v.push(marked!(E_NEN_UText, ops::<E_NEN_UText>("E_NEN_UText")));
    v.push(marked!(E_NEN_UNum, ops::<E_NEN_UNum>("E_NEN_UNum")));
    v.push(marked!(E_NEN_UDisc, ops::<E_NEN_UDisc>("E_NEN_UDisc")));
    v.push(marked!(E_NEN_UExpr, ops::<E_NEN_UExpr>("E_NEN_UExpr")));
    v.push(marked!(E_NEN_UStruct, ops::<E_NEN_UStruct>("E_NEN_UStruct")));
    v.push(marked!(E_NEN_NU8, ops::<E_NEN_NU8>("E_NEN_NU8")));
    v.push(marked!(E_NEN_NStr, ops::<E_NEN_NStr>("E_NEN_NStr")));
    v.push(marked!(E_NEN_NOpt, ops::<E_NEN_NOpt>("E_NEN_NOpt")));
    v.push(marked!(E_NEN_NNS, ops::<E_NEN_NNS>("E_NEN_NNS")));
    v.push(marked!(E_NEN_NVec, ops::<E_NEN_NVec>("E_NEN_NVec")));
    v.push(marked!(E_NEN_Tup, ops::<E_NEN_Tup>("E_NEN_Tup")));
    v.push(marked!(E_NEN_TSkip, ops::<E_NEN_TSkip>("E_NEN_TSkip")));
    v.push(marked!(E_NEN_T0, ops::<E_NEN_T0>("E_NEN_T0")));
    v.push(marked!(E_NEN_Named, ops::<E_NEN_Named>("E_NEN_Named")));
    v.push(marked!(E_NEN_NMix, ops::<E_NEN_NMix>("E_NEN_NMix")));
    v.push(marked!(E_NEN_N0, ops::<E_NEN_N0>("E_NEN_N0")));
    v.push(marked!(E_NEN_NArr, ops::<E_NEN_NArr>("E_NEN_NArr")));
    v.push(marked!(E_NEN_NUnk, ops::<E_NEN_NUnk>("E_NEN_NUnk")));
    v.push(marked!(E_NEN_SUnit, ops::<E_NEN_SUnit>("E_NEN_SUnit")));
    v.push(marked!(E_NEN_SNew, ops::<E_NEN_SNew>("E_NEN_SNew")));
    v.push(marked!(E_NEN_EmA, ops::<E_NEN_EmA>("E_NEN_EmA")));
    v.push(marked!(E_NEN_EmB, ops::<E_NEN_EmB>("E_NEN_EmB")));
    v.push(marked!(E_NEN_NEN, ops::<E_NEN_NEN>("E_NEN_NEN")));
    v.push(marked!(E_EmS_Unit, ops::<E_EmS_Unit>("E_EmS_Unit")));
    v.push(marked!(E_Unit_EmS, ops::<E_Unit_EmS>("E_Unit_EmS")));
    v.push(marked!(E_EmS_Tup, ops::<E_EmS_Tup>("E_EmS_Tup")));
    v.push(marked!(E_Tup_EmS, ops::<E_Tup_EmS>("E_Tup_EmS")));
    v.push(marked!(E_EmX_UStruct, ops::<E_EmX_UStruct>("E_EmX_UStruct")));
    v.push(marked!(E_UStruct_EmX, ops::<E_UStruct_EmX>("E_UStruct_EmX")));
    v.push(marked!(E_EmX_N0, ops::<E_EmX_N0>("E_EmX_N0")));
    v.push(marked!(E_N0_EmX, ops::<E_N0_EmX>("E_N0_EmX")));
    v.push(marked!(E_SNamed_NVec, ops::<E_SNamed_NVec>("E_SNamed_NVec")));
    v.push(marked!(E_NVec_SNamed, ops::<E_NVec_SNamed>("E_NVec_SNamed")));
    v.push(marked!(E_SNamed_EmA, ops::<E_SNamed_EmA>("E_SNamed_EmA")));
    v.push(marked!(E_EmA_SNamed, ops::<E_EmA_SNamed>("E_EmA_SNamed")));
}
fn types14(v: &mut Vec<Ops>) {
    v.push(marked!(E_SEmA_NMix, ops::<E_SEmA_NMix>("E_SEmA_NMix")));
    v.push(marked!(E_NMix_SEmA, ops::<E_NMix_SEmA>("E_NMix_SEmA")));
    v.push(marked!(E_SEmA_UNum, ops::<E_SEmA_UNum>("E_SEmA_UNum")));
    v.push(marked!(E_UNum_SEmA, ops::<E_UNum_SEmA>("E_UNum_SEmA")));
    v.push(marked!(E_SEmB_SNew, ops::<E_SEmB_SNew>("E_SEmB_SNew")));
    v.push(marked!(E_SNew_SEmB, ops::<E_SNew_SEmB>("E_SNew_SEmB")));
    v.push(marked!(E_SEmB_NStr, ops::<E_SEmB_NStr>("E_SEmB_NStr")));
    v.push(marked!(E_NStr_SEmB, ops::<E_NStr_SEmB>("E_NStr_SEmB")));
    v.push(marked!(E_SDisc_UText, ops::<E_SDisc_UText>("E_SDisc_UText")));
    v.push(marked!(E_UText_SDisc, ops::<E_UText_SDisc>("E_UText_SDisc")));
    v.push(marked!(E_SDisc_TSkip, ops::<E_SDisc_TSkip>("E_SDisc_TSkip")));
    v.push(marked!(E_TSkip_SDisc, ops::<E_TSkip_SDisc>("E_TSkip_SDisc")));
    v.push(marked!(E_SRen_NU8, ops::<E_SRen_NU8>("E_SRen_NU8")));
    v.push(marked!(E_NU8_SRen, ops::<E_NU8_SRen>("E_NU8_SRen")));
    v.push(marked!(E_SRen_NArr, ops::<E_SRen_NArr>("E_SRen_NArr")));
    v.push(marked!(E_NArr_SRen, ops::<E_NArr_SRen>("E_NArr_SRen")));
    v.push(marked!(E_SStruct_Tup, ops::<E_SStruct_Tup>("E_SStruct_Tup")));
    v.push(marked!(E_Tup_SStruct, ops::<E_Tup_SStruct>("E_Tup_SStruct")));
    v.push(marked!(E_SStruct_EmB, ops::<E_SStruct_EmB>("E_SStruct_EmB")));
    v.push(marked!(E_EmB_SStruct, ops::<E_EmB_SStruct>("E_EmB_SStruct")));
    v.push(marked!(E_STup_N0, ops::<E_STup_N0>("E_STup_N0")));
    v.push(marked!(E_N0_STup, ops::<E_N0_STup>("E_N0_STup")));
    v.push(marked!(E_STup_UDisc, ops::<E_STup_UDisc>("E_STup_UDisc")));
    v.push(marked!(E_UDisc_STup, ops::<E_UDisc_STup>("E_UDisc_STup")));
    v.push(marked!(E_SArr_EmA, ops::<E_SArr_EmA>("E_SArr_EmA")));
    v.push(marked!(E_EmA_SArr, ops::<E_EmA_SArr>("E_EmA_SArr")));
    v.push(marked!(E_SArr_NOpt, ops::<E_SArr_NOpt>("E_SArr_NOpt")));
    v.push(marked!(E_NOpt_SArr, ops::<E_NOpt_SArr>("E_NOpt_SArr")));
    v.push(marked!(E_SNone_UNum, ops::<E_SNone_UNum>("E_SNone_UNum")));
    v.push(marked!(E_UNum_SNone, ops::<E_UNum_SNone>("E_UNum_SNone")));
    v.push(marked!(E_SNone_T0, ops::<E_SNone_T0>("E_SNone_T0")));
    v.push(marked!(E_T0_SNone, ops::<E_T0_SNone>("E_T0_SNone")));
    v.push(marked!(E_NCod_NStr, ops::<E_NCod_NStr>("E_NCod_NStr")));
    v.push(marked!(E_NStr_NCod, ops::<E_NStr_NCod>("E_NStr_NCod")));
    v.push(marked!(E_NCod_NUnk, ops::<E_NCod_NUnk>("E_NCod_NUnk")));
    v.push(marked!(E_NUnk_NCod, ops::<E_NUnk_NCod>("E_NUnk_NCod")));
    v.push(marked!(E_TCod_TSkip, ops::<E_TCod_TSkip>("E_TCod_TSkip")));
    v.push(marked!(E_TSkip_TCod, ops::<E_TSkip_TCod>("E_TSkip_TCod")));
    v.push(marked!(E_TCod_NEN, ops::<E_TCod_NEN>("E_TCod_NEN")));
    v.push(marked!(E_NEN_TCod, ops::<E_NEN_TCod>("E_NEN_TCod")));
    v.push(marked!(E_TSk1_NArr, ops::<E_TSk1_NArr>("E_TSk1_NArr")));
    v.push(marked!(E_NArr_TSk1, ops::<E_NArr_TSk1>("E_NArr_TSk1")));
    v.push(marked!(E_TSk1_UExpr, ops::<E_TSk1_UExpr>("E_TSk1_UExpr")));
    v.push(marked!(E_UExpr_TSk1, ops::<E_UExpr_TSk1>("E_UExpr_TSk1")));
    v.push(marked!(E_NCNum_EmB, ops::<E_NCNum_EmB>("E_NCNum_EmB")));
    v.push(marked!(E_EmB_NCNum, ops::<E_EmB_NCNum>("E_EmB_NCNum")));
    v.push(marked!(E_NCNum_NNS, ops::<E_NCNum_NNS>("E_NCNum_NNS")));
    v.push(marked!(E_NNS_NCNum, ops::<E_NNS_NCNum>("E_NNS_NCNum")));
    v.push(marked!(E_NCPos_UDisc, ops::<E_NCPos_UDisc>("E_NCPos_UDisc")));
    v.push(marked!(E_UDisc_NCPos, ops::<E_UDisc_NCPos>("E_UDisc_NCPos")));
}
fn types15(v: &mut Vec<Ops>) {
    v.push(marked!(E_NCPos_Named, ops::<E_NCPos_Named>("E_NCPos_Named")));
    v.push(marked!(E_Named_NCPos, ops::<E_Named_NCPos>("E_Named_NCPos")));
    v.push(marked!(E_NCSer_NOpt, ops::<E_NCSer_NOpt>("E_NCSer_NOpt")));
    v.push(marked!(E_NOpt_NCSer, ops::<E_NOpt_NCSer>("E_NOpt_NCSer")));
    v.push(marked!(E_NCSer_SUnit, ops::<E_NCSer_SUnit>("E_NCSer_SUnit")));
    v.push(marked!(E_SUnit_NCSer, ops::<E_SUnit_NCSer>("E_SUnit_NCSer")));
    v.push(marked!(E_NCDe_T0, ops::<E_NCDe_T0>("E_NCDe_T0")));
    v.push(marked!(E_T0_NCDe, ops::<E_T0_NCDe>("E_T0_NCDe")));
    v.push(marked!(E_NCDe_Unit, ops::<E_NCDe_Unit>("E_NCDe_Unit")));
    v.push(marked!(E_Unit_NCDe, ops::<E_Unit_NCDe>("E_Unit_NCDe")));
    v.push(marked!(E_NCWrap_NUnk, ops::<E_NCWrap_NUnk>("E_NCWrap_NUnk")));
    v.push(marked!(E_NUnk_NCWrap, ops::<E_NUnk_NCWrap>("E_NUnk_NCWrap")));
    v.push(marked!(E_NCWrap_UStruct, ops::<E_NCWrap_UStruct>("E_NCWrap_UStruct")));
    v.push(marked!(E_UStruct_NCWrap, ops::<E_UStruct_NCWrap>("E_UStruct_NCWrap")));
    v.push(marked!(E_NCUnder_NEN, ops::<E_NCUnder_NEN>("E_NCUnder_NEN")));
    v.push(marked!(E_NEN_NCUnder, ops::<E_NEN_NCUnder>("E_NEN_NCUnder")));
    v.push(marked!(E_NCUnder_NVec, ops::<E_NCUnder_NVec>("E_NCUnder_NVec")));
    v.push(marked!(E_NVec_NCUnder, ops::<E_NVec_NCUnder>("E_NVec_NCUnder")));
    v.push(marked!(E_NSkp_UExpr, ops::<E_NSkp_UExpr>("E_NSkp_UExpr")));
    v.push(marked!(E_UExpr_NSkp, ops::<E_UExpr_NSkp>("E_UExpr_NSkp")));
    v.push(marked!(E_NSkp_NMix, ops::<E_NSkp_NMix>("E_NSkp_NMix")));
    v.push(marked!(E_NMix_NSkp, ops::<E_NMix_NSkp>("E_NMix_NSkp")));
    v.push(marked!(E_NSkN_NNS, ops::<E_NSkN_NNS>("E_NSkN_NNS")));
    v.push(marked!(E_NNS_NSkN, ops::<E_NNS_NSkN>("E_NNS_NSkN")));
    v.push(marked!(E_NSkN_SNew, ops::<E_NSkN_SNew>("E_NSkN_SNew")));
    v.push(marked!(E_SNew_NSkN, ops::<E_SNew_NSkN>("E_SNew_NSkN")));
    v.push(marked!(E_EmC_Named, ops::<E_EmC_Named>("E_EmC_Named")));
    v.push(marked!(E_Named_EmC, ops::<E_Named_EmC>("E_Named_EmC")));
    v.push(marked!(E_EmC_UText, ops::<E_EmC_UText>("E_EmC_UText")));
    v.push(marked!(E_UText_EmC, ops::<E_UText_EmC>("E_UText_EmC")));
    v.push(marked!(E_EmD_SUnit, ops::<E_EmD_SUnit>("E_EmD_SUnit")));
    v.push(marked!(E_SUnit_EmD, ops::<E_SUnit_EmD>("E_SUnit_EmD")));
    v.push(marked!(E_EmD_NU8, ops::<E_EmD_NU8>("E_EmD_NU8")));
    v.push(marked!(E_NU8_EmD, ops::<E_NU8_EmD>("E_NU8_EmD")));
    v.push(marked!(E_NUnit_Unit, ops::<E_NUnit_Unit>("E_NUnit_Unit")));
    v.push(marked!(E_Unit_NUnit, ops::<E_Unit_NUnit>("E_Unit_NUnit")));
    v.push(marked!(E_NUnit_Tup, ops::<E_NUnit_Tup>("E_NUnit_Tup")));
    v.push(marked!(E_Tup_NUnit, ops::<E_Tup_NUnit>("E_Tup_NUnit")));
    v.push(marked!(E_NVal_UStruct, ops::<E_NVal_UStruct>("E_NVal_UStruct")));
    v.push(marked!(E_UStruct_NVal, ops::<E_UStruct_NVal>("E_UStruct_NVal")));
    v.push(marked!(E_NVal_N0, ops::<E_NVal_N0>("E_NVal_N0")));
    v.push(marked!(E_N0_NVal, ops::<E_N0_NVal>("E_N0_NVal")));
    v.push(marked!(E_NUN_NVec, ops::<E_NUN_NVec>("E_NUN_NVec")));
    v.push(marked!(E_NVec_NUN, ops::<E_NVec_NUN>("E_NVec_NUN")));
    v.push(marked!(E_NUN_EmA, ops::<E_NUN_EmA>("E_NUN_EmA")));
    v.push(marked!(E_EmA_NUN, ops::<E_EmA_NUN>("E_EmA_NUN")));
    v.push(marked!(E_NND_NMix, ops::<E_NND_NMix>("E_NND_NMix")));
    v.push(marked!(E_NMix_NND, ops::<E_NMix_NND>("E_NMix_NND")));
    v.push(marked!(E_NND_UNum, ops::<E_NND_UNum>("E_NND_UNum")));
    v.push(marked!(E_UNum_NND, ops::<E_UNum_NND>("E_UNum_NND")));
}
fn types16(v: &mut Vec<Ops>) {
    v.push(marked!(E_NTW_SNew, ops::<E_NTW_SNew>("E_NTW_SNew")));
    v.push(marked!(E_SNew_NTW, ops::<E_SNew_NTW>("E_SNew_NTW")));
    v.push(marked!(E_NTW_NStr, ops::<E_NTW_NStr>("E_NTW_NStr")));
    v.push(marked!(E_NStr_NTW, ops::<E_NStr_NTW>("E_NStr_NTW")));
    v.push(marked!(E_NMap_UText, ops::<E_NMap_UText>("E_NMap_UText")));
    v.push(marked!(E_UText_NMap, ops::<E_UText_NMap>("E_UText_NMap")));
    v.push(marked!(E_NMap_TSkip, ops::<E_NMap_TSkip>("E_NMap_TSkip")));
    v.push(marked!(E_TSkip_NMap, ops::<E_TSkip_NMap>("E_TSkip_NMap")));
    v.push(marked!(E_NVecNS_NU8, ops::<E_NVecNS_NU8>("E_NVecNS_NU8")));
    v.push(marked!(E_NU8_NVecNS, ops::<E_NU8_NVecNS>("E_NU8_NVecNS")));
    v.push(marked!(E_NVecNS_NArr, ops::<E_NVecNS_NArr>("E_NVecNS_NArr")));
    v.push(marked!(E_NArr_NVecNS, ops::<E_NArr_NVecNS>("E_NArr_NVecNS")));
    v.push(marked!(E_NTup_Tup, ops::<E_NTup_Tup>("E_NTup_Tup")));
    v.push(marked!(E_Tup_NTup, ops::<E_Tup_NTup>("E_Tup_NTup")));
    v.push(marked!(E_NTup_EmB, ops::<E_NTup_EmB>("E_NTup_EmB")));
    v.push(marked!(E_EmB_NTup, ops::<E_EmB_NTup>("E_EmB_NTup")));
    v.push(marked!(E_NBig_N0, ops::<E_NBig_N0>("E_NBig_N0")));
    v.push(marked!(E_N0_NBig, ops::<E_N0_NBig>("E_N0_NBig")));
    v.push(marked!(E_NBig_UDisc, ops::<E_NBig_UDisc>("E_NBig_UDisc")));
    v.push(marked!(E_UDisc_NBig, ops::<E_UDisc_NBig>("E_UDisc_NBig")));
    v.push(marked!(E_UUnkS_EmA, ops::<E_UUnkS_EmA>("E_UUnkS_EmA")));
    v.push(marked!(E_EmA_UUnkS, ops::<E_EmA_UUnkS>("E_EmA_UUnkS")));
    v.push(marked!(E_UUnkS_NOpt, ops::<E_UUnkS_NOpt>("E_UUnkS_NOpt")));
    v.push(marked!(E_NOpt_UUnkS, ops::<E_NOpt_UUnkS>("E_NOpt_UUnkS")));
    v.push(marked!(E_N0Unk_UNum, ops::<E_N0Unk_UNum>("E_N0Unk_UNum")));
    v.push(marked!(E_UNum_N0Unk, ops::<E_UNum_N0Unk>("E_UNum_N0Unk")));
    v.push(marked!(E_N0Unk_T0, ops::<E_N0Unk_T0>("E_N0Unk_T0")));
    v.push(marked!(E_T0_N0Unk, ops::<E_T0_N0Unk>("E_T0_N0Unk")));
    v.push(marked!(E_NArr0_NStr, ops::<E_NArr0_NStr>("E_NArr0_NStr")));
    v.push(marked!(E_NStr_NArr0, ops::<E_NStr_NArr0>("E_NStr_NArr0")));
    v.push(marked!(E_NArr0_NUnk, ops::<E_NArr0_NUnk>("E_NArr0_NUnk")));
    v.push(marked!(E_NUnk_NArr0, ops::<E_NUnk_NArr0>("E_NUnk_NArr0")));
    v.push(marked!(E_TUnk_TSkip, ops::<E_TUnk_TSkip>("E_TUnk_TSkip")));
    v.push(marked!(E_TSkip_TUnk, ops::<E_TSkip_TUnk>("E_TSkip_TUnk")));
    v.push(marked!(E_TUnk_NEN, ops::<E_TUnk_NEN>("E_TUnk_NEN")));
    v.push(marked!(E_NEN_TUnk, ops::<E_NEN_TUnk>("E_NEN_TUnk")));
    v.push(marked!(E_RStruct_NArr, ops::<E_RStruct_NArr>("E_RStruct_NArr")));
    v.push(marked!(E_NArr_RStruct, ops::<E_NArr_RStruct>("E_NArr_RStruct")));
    v.push(marked!(E_RStruct_UExpr, ops::<E_RStruct_UExpr>("E_RStruct_UExpr")));
    v.push(marked!(E_UExpr_RStruct, ops::<E_UExpr_RStruct>("E_UExpr_RStruct")));
    v.push(marked!(E_URText_EmB, ops::<E_URText_EmB>("E_URText_EmB")));
    v.push(marked!(E_EmB_URText, ops::<E_EmB_URText>("E_EmB_URText")));
    v.push(marked!(E_URText_NNS, ops::<E_URText_NNS>("E_URText_NNS")));
    v.push(marked!(E_NNS_URText, ops::<E_NNS_URText>("E_NNS_URText")));
    v.push(marked!(E_NRen_UDisc, ops::<E_NRen_UDisc>("E_NRen_UDisc")));
    v.push(marked!(E_UDisc_NRen, ops::<E_UDisc_NRen>("E_UDisc_NRen")));
    v.push(marked!(E_NRen_Named, ops::<E_NRen_Named>("E_NRen_Named")));
    v.push(marked!(E_Named_NRen, ops::<E_Named_NRen>("E_Named_NRen")));
    v.push(marked!(E_Fu8_NOpt, ops::<E_Fu8_NOpt>("E_Fu8_NOpt")));
    v.push(marked!(E_NOpt_Fu8, ops::<E_NOpt_Fu8>("E_NOpt_Fu8")));
}
fn types17(v: &mut Vec<Ops>) {
    v.push(marked!(E_Fu8_SUnit, ops::<E_Fu8_SUnit>("E_Fu8_SUnit")));
    v.push(marked!(E_SUnit_Fu8, ops::<E_SUnit_Fu8>("E_SUnit_Fu8")));
    v.push(marked!(E_Qu8_T0, ops::<E_Qu8_T0>("E_Qu8_T0")));
    v.push(marked!(E_T0_Qu8, ops::<E_T0_Qu8>("E_T0_Qu8")));
    v.push(marked!(E_Qu8_Unit, ops::<E_Qu8_Unit>("E_Qu8_Unit")));
    v.push(marked!(E_Unit_Qu8, ops::<E_Unit_Qu8>("E_Unit_Qu8")));
    v.push(marked!(E_FStr_NUnk, ops::<E_FStr_NUnk>("E_FStr_NUnk")));
    v.push(marked!(E_NUnk_FStr, ops::<E_NUnk_FStr>("E_NUnk_FStr")));
    v.push(marked!(E_FStr_UStruct, ops::<E_FStr_UStruct>("E_FStr_UStruct")));
    v.push(marked!(E_UStruct_FStr, ops::<E_UStruct_FStr>("E_UStruct_FStr")));
    v.push(marked!(E_QStr_NEN, ops::<E_QStr_NEN>("E_QStr_NEN")));
    v.push(marked!(E_NEN_QStr, ops::<E_NEN_QStr>("E_NEN_QStr")));
    v.push(marked!(E_QStr_NVec, ops::<E_QStr_NVec>("E_QStr_NVec")));
    v.push(marked!(E_NVec_QStr, ops::<E_NVec_QStr>("E_NVec_QStr")));
    v.push(marked!(E_FOpt_UExpr, ops::<E_FOpt_UExpr>("E_FOpt_UExpr")));
    v.push(marked!(E_UExpr_FOpt, ops::<E_UExpr_FOpt>("E_UExpr_FOpt")));
    v.push(marked!(E_FOpt_NMix, ops::<E_FOpt_NMix>("E_FOpt_NMix")));
    v.push(marked!(E_NMix_FOpt, ops::<E_NMix_FOpt>("E_NMix_FOpt")));
    v.push(marked!(E_QOpt_NNS, ops::<E_QOpt_NNS>("E_QOpt_NNS")));
    v.push(marked!(E_NNS_QOpt, ops::<E_NNS_QOpt>("E_NNS_QOpt")));
    v.push(marked!(E_QOpt_SNew, ops::<E_QOpt_SNew>("E_QOpt_SNew")));
    v.push(marked!(E_SNew_QOpt, ops::<E_SNew_QOpt>("E_SNew_QOpt")));
    v.push(marked!(E_FOOpt_Named, ops::<E_FOOpt_Named>("E_FOOpt_Named")));
    v.push(marked!(E_Named_FOOpt, ops::<E_Named_FOOpt>("E_Named_FOOpt")));
    v.push(marked!(E_FOOpt_UText, ops::<E_FOOpt_UText>("E_FOOpt_UText")));
    v.push(marked!(E_UText_FOOpt, ops::<E_UText_FOOpt>("E_UText_FOOpt")));
    v.push(marked!(E_QOOpt_SUnit, ops::<E_QOOpt_SUnit>("E_QOOpt_SUnit")));
    v.push(marked!(E_SUnit_QOOpt, ops::<E_SUnit_QOOpt>("E_SUnit_QOOpt")));
    v.push(marked!(E_QOOpt_NU8, ops::<E_QOOpt_NU8>("E_QOOpt_NU8")));
    v.push(marked!(E_NU8_QOOpt, ops::<E_NU8_QOOpt>("E_NU8_QOOpt")));
    v.push(marked!(E_FONum_Unit, ops::<E_FONum_Unit>("E_FONum_Unit")));
    v.push(marked!(E_Unit_FONum, ops::<E_Unit_FONum>("E_Unit_FONum")));
    v.push(marked!(E_FONum_Tup, ops::<E_FONum_Tup>("E_FONum_Tup")));
    v.push(marked!(E_Tup_FONum, ops::<E_Tup_FONum>("E_Tup_FONum")));
    v.push(marked!(E_QONum_UStruct, ops::<E_QONum_UStruct>("E_QONum_UStruct")));
    v.push(marked!(E_UStruct_QONum, ops::<E_UStruct_QONum>("E_UStruct_QONum")));
    v.push(marked!(E_QONum_N0, ops::<E_QONum_N0>("E_QONum_N0")));
    v.push(marked!(E_N0_QONum, ops::<E_N0_QONum>("E_N0_QONum")));
    v.push(marked!(E_FOVec_NVec, ops::<E_FOVec_NVec>("E_FOVec_NVec")));
    v.push(marked!(E_NVec_FOVec, ops::<E_NVec_FOVec>("E_NVec_FOVec")));
    v.push(marked!(E_FOVec_EmA, ops::<E_FOVec_EmA>("E_FOVec_EmA")));
    v.push(marked!(E_EmA_FOVec, ops::<E_EmA_FOVec>("E_EmA_FOVec")));
    v.push(marked!(E_FSkip_NMix, ops::<E_FSkip_NMix>("E_FSkip_NMix")));
    v.push(marked!(E_NMix_FSkip, ops::<E_NMix_FSkip>("E_NMix_FSkip")));
    v.push(marked!(E_FSkip_UNum, ops::<E_FSkip_UNum>("E_FSkip_UNum")));
    v.push(marked!(E_UNum_FSkip, ops::<E_UNum_FSkip>("E_UNum_FSkip")));
    v.push(marked!(E_QSkip_SNew, ops::<E_QSkip_SNew>("E_QSkip_SNew")));
    v.push(marked!(E_SNew_QSkip, ops::<E_SNew_QSkip>("E_SNew_QSkip")));
    v.push(marked!(E_QSkip_NStr, ops::<E_QSkip_NStr>("E_QSkip_NStr")));
    v.push(marked!(E_NStr_QSkip, ops::<E_NStr_QSkip>("E_NStr_QSkip")));
}
fn types18(v: &mut Vec<Ops>) {
    v.push(marked!(E_FRText_UText, ops::<E_FRText_UText>("E_FRText_UText")));
    v.push(marked!(E_UText_FRText, ops::<E_UText_FRText>("E_UText_FRText")));
    v.push(marked!(E_FRText_TSkip, ops::<E_FRText_TSkip>("E_FRText_TSkip")));
    v.push(marked!(E_TSkip_FRText, ops::<E_TSkip_FRText>("E_TSkip_FRText")));
    v.push(marked!(E_QRText_NU8, ops::<E_QRText_NU8>("E_QRText_NU8")));
    v.push(marked!(E_NU8_QRText, ops::<E_NU8_QRText>("E_NU8_QRText")));
    v.push(marked!(E_QRText_NArr, ops::<E_QRText_NArr>("E_QRText_NArr")));
    v.push(marked!(E_NArr_QRText, ops::<E_NArr_QRText>("E_NArr_QRText")));
    v.push(marked!(E_FRNum_Tup, ops::<E_FRNum_Tup>("E_FRNum_Tup")));
    v.push(marked!(E_Tup_FRNum, ops::<E_Tup_FRNum>("E_Tup_FRNum")));
    v.push(marked!(E_FRNum_EmB, ops::<E_FRNum_EmB>("E_FRNum_EmB")));
    v.push(marked!(E_EmB_FRNum, ops::<E_EmB_FRNum>("E_EmB_FRNum")));
    v.push(marked!(E_QRNum_N0, ops::<E_QRNum_N0>("E_QRNum_N0")));
    v.push(marked!(E_N0_QRNum, ops::<E_N0_QRNum>("E_N0_QRNum")));
    v.push(marked!(E_QRNum_UDisc, ops::<E_QRNum_UDisc>("E_QRNum_UDisc")));
    v.push(marked!(E_UDisc_QRNum, ops::<E_UDisc_QRNum>("E_UDisc_QRNum")));
    v.push(marked!(E_FRLong_EmA, ops::<E_FRLong_EmA>("E_FRLong_EmA")));
    v.push(marked!(E_EmA_FRLong, ops::<E_EmA_FRLong>("E_EmA_FRLong")));
    v.push(marked!(E_FRLong_NOpt, ops::<E_FRLong_NOpt>("E_FRLong_NOpt")));
    v.push(marked!(E_NOpt_FRLong, ops::<E_NOpt_FRLong>("E_NOpt_FRLong")));
    v.push(marked!(E_QRLong_UNum, ops::<E_QRLong_UNum>("E_QRLong_UNum")));
    v.push(marked!(E_UNum_QRLong, ops::<E_UNum_QRLong>("E_UNum_QRLong")));
    v.push(marked!(E_QRLong_T0, ops::<E_QRLong_T0>("E_QRLong_T0")));
    v.push(marked!(E_T0_QRLong, ops::<E_T0_QRLong>("E_T0_QRLong")));
    v.push(marked!(E_FWith_NStr, ops::<E_FWith_NStr>("E_FWith_NStr")));
    v.push(marked!(E_NStr_FWith, ops::<E_NStr_FWith>("E_NStr_FWith")));
    v.push(marked!(E_FWith_NUnk, ops::<E_FWith_NUnk>("E_FWith_NUnk")));
    v.push(marked!(E_NUnk_FWith, ops::<E_NUnk_FWith>("E_NUnk_FWith")));
    v.push(marked!(E_QWith_TSkip, ops::<E_QWith_TSkip>("E_QWith_TSkip")));
    v.push(marked!(E_TSkip_QWith, ops::<E_TSkip_QWith>("E_TSkip_QWith")));
    v.push(marked!(E_QWith_NEN, ops::<E_QWith_NEN>("E_QWith_NEN")));
    v.push(marked!(E_NEN_QWith, ops::<E_NEN_QWith>("E_NEN_QWith")));
    v.push(marked!(E_FOWith_NArr, ops::<E_FOWith_NArr>("E_FOWith_NArr")));
    v.push(marked!(E_NArr_FOWith, ops::<E_NArr_FOWith>("E_NArr_FOWith")));
    v.push(marked!(E_FOWith_UExpr, ops::<E_FOWith_UExpr>("E_FOWith_UExpr")));
    v.push(marked!(E_UExpr_FOWith, ops::<E_UExpr_FOWith>("E_UExpr_FOWith")));
    v.push(marked!(E_QOWith_EmB, ops::<E_QOWith_EmB>("E_QOWith_EmB")));
    v.push(marked!(E_EmB_QOWith, ops::<E_EmB_QOWith>("E_EmB_QOWith")));
    v.push(marked!(E_QOWith_NNS, ops::<E_QOWith_NNS>("E_QOWith_NNS")));
    v.push(marked!(E_NNS_QOWith, ops::<E_NNS_QOWith>("E_NNS_QOWith")));
    v.push(marked!(E_FSer_UDisc, ops::<E_FSer_UDisc>("E_FSer_UDisc")));
    v.push(marked!(E_UDisc_FSer, ops::<E_UDisc_FSer>("E_UDisc_FSer")));
    v.push(marked!(E_FSer_Named, ops::<E_FSer_Named>("E_FSer_Named")));
    v.push(marked!(E_Named_FSer, ops::<E_Named_FSer>("E_Named_FSer")));
    v.push(marked!(E_QSer_NOpt, ops::<E_QSer_NOpt>("E_QSer_NOpt")));
    v.push(marked!(E_NOpt_QSer, ops::<E_NOpt_QSer>("E_NOpt_QSer")));
    v.push(marked!(E_QSer_SUnit, ops::<E_QSer_SUnit>("E_QSer_SUnit")));
    v.push(marked!(E_SUnit_QSer, ops::<E_SUnit_QSer>("E_SUnit_QSer")));
    v.push(marked!(E_FDe_T0, ops::<E_FDe_T0>("E_FDe_T0")));
    v.push(marked!(E_T0_FDe, ops::<E_T0_FDe>("E_T0_FDe")));
}
fn types19(v: &mut Vec<Ops>) {
    v.push(marked!(E_FDe_Unit, ops::<E_FDe_Unit>("E_FDe_Unit")));
    v.push(marked!(E_Unit_FDe, ops::<E_Unit_FDe>("E_Unit_FDe")));
    v.push(marked!(E_QDe_NUnk, ops::<E_QDe_NUnk>("E_QDe_NUnk")));
    v.push(marked!(E_NUnk_QDe, ops::<E_NUnk_QDe>("E_NUnk_QDe")));
    v.push(marked!(E_QDe_UStruct, ops::<E_QDe_UStruct>("E_QDe_UStruct")));
    v.push(marked!(E_UStruct_QDe, ops::<E_UStruct_QDe>("E_UStruct_QDe")));
    v.push(marked!(E_FVal_NEN, ops::<E_FVal_NEN>("E_FVal_NEN")));
    v.push(marked!(E_NEN_FVal, ops::<E_NEN_FVal>("E_NEN_FVal")));
    v.push(marked!(E_FVal_NVec, ops::<E_FVal_NVec>("E_FVal_NVec")));
    v.push(marked!(E_NVec_FVal, ops::<E_NVec_FVal>("E_NVec_FVal")));
    v.push(marked!(E_QVal_UExpr, ops::<E_QVal_UExpr>("E_QVal_UExpr")));
    v.push(marked!(E_UExpr_QVal, ops::<E_UExpr_QVal>("E_UExpr_QVal")));
    v.push(marked!(E_QVal_NMix, ops::<E_QVal_NMix>("E_QVal_NMix")));
    v.push(marked!(E_NMix_QVal, ops::<E_NMix_QVal>("E_NMix_QVal")));
    v.push(marked!(E_FNS_NNS, ops::<E_FNS_NNS>("E_FNS_NNS")));
    v.push(marked!(E_NNS_FNS, ops::<E_NNS_FNS>("E_NNS_FNS")));
    v.push(marked!(E_FNS_SNew, ops::<E_FNS_SNew>("E_FNS_SNew")));
    v.push(marked!(E_SNew_FNS, ops::<E_SNew_FNS>("E_SNew_FNS")));
    v.push(marked!(E_QNS_Named, ops::<E_QNS_Named>("E_QNS_Named")));
    v.push(marked!(E_Named_QNS, ops::<E_Named_QNS>("E_Named_QNS")));
    v.push(marked!(E_QNS_UText, ops::<E_QNS_UText>("E_QNS_UText")));
    v.push(marked!(E_UText_QNS, ops::<E_UText_QNS>("E_UText_QNS")));
    v.push(marked!(E_FONS_SUnit, ops::<E_FONS_SUnit>("E_FONS_SUnit")));
    v.push(marked!(E_SUnit_FONS, ops::<E_SUnit_FONS>("E_SUnit_FONS")));
    v.push(marked!(E_FONS_NU8, ops::<E_FONS_NU8>("E_FONS_NU8")));
    v.push(marked!(E_NU8_FONS, ops::<E_NU8_FONS>("E_NU8_FONS")));
    v.push(marked!(E_QONS_Unit, ops::<E_QONS_Unit>("E_QONS_Unit")));
    v.push(marked!(E_Unit_QONS, ops::<E_Unit_QONS>("E_Unit_QONS")));
    v.push(marked!(E_QONS_Tup, ops::<E_QONS_Tup>("E_QONS_Tup")));
    v.push(marked!(E_Tup_QONS, ops::<E_Tup_QONS>("E_Tup_QONS")));
    v.push(marked!(E_FEN_UStruct, ops::<E_FEN_UStruct>("E_FEN_UStruct")));
    v.push(marked!(E_UStruct_FEN, ops::<E_UStruct_FEN>("E_UStruct_FEN")));
    v.push(marked!(E_FEN_N0, ops::<E_FEN_N0>("E_FEN_N0")));
    v.push(marked!(E_N0_FEN, ops::<E_N0_FEN>("E_N0_FEN")));
    v.push(marked!(E_QEN_NVec, ops::<E_QEN_NVec>("E_QEN_NVec")));
    v.push(marked!(E_NVec_QEN, ops::<E_NVec_QEN>("E_NVec_QEN")));
    v.push(marked!(E_QEN_EmA, ops::<E_QEN_EmA>("E_QEN_EmA")));
    v.push(marked!(E_EmA_QEN, ops::<E_EmA_QEN>("E_EmA_QEN")));
    v.push(marked!(E_FORNum_NMix, ops::<E_FORNum_NMix>("E_FORNum_NMix")));
    v.push(marked!(E_NMix_FORNum, ops::<E_NMix_FORNum>("E_NMix_FORNum")));
    v.push(marked!(E_FORNum_UNum, ops::<E_FORNum_UNum>("E_FORNum_UNum")));
    v.push(marked!(E_UNum_FORNum, ops::<E_UNum_FORNum>("E_UNum_FORNum")));
    v.push(marked!(E3_0_0, ops::<E3_0_0>("E3_0_0")));
    v.push(marked!(E3_0_1, ops::<E3_0_1>("E3_0_1")));
    v.push(marked!(E3_0_2, ops::<E3_0_2>("E3_0_2")));
    v.push(marked!(E3_0_3, ops::<E3_0_3>("E3_0_3")));
    v.push(marked!(E3_1_0, ops::<E3_1_0>("E3_1_0")));
    v.push(marked!(E3_1_1, ops::<E3_1_1>("E3_1_1")));
    v.push(marked!(E3_1_2, ops::<E3_1_2>("E3_1_2")));
    v.push(marked!(E3_1_3, ops::<E3_1_3>("E3_1_3")));
}
fn types20(v: &mut Vec<Ops>) {
    v.push(marked!(E3_2_0, ops::<E3_2_0>("E3_2_0")));
    v.push(marked!(E3_2_1, ops::<E3_2_1>("E3_2_1")));
    v.push(marked!(E3_2_2, ops::<E3_2_2>("E3_2_2")));
    v.push(marked!(E3_2_3, ops::<E3_2_3>("E3_2_3")));
    v.push(marked!(E3_3_0, ops::<E3_3_0>("E3_3_0")));
    v.push(marked!(E3_3_1, ops::<E3_3_1>("E3_3_1")));
    v.push(marked!(E3_3_2, ops::<E3_3_2>("E3_3_2")));
    v.push(marked!(E3_3_3, ops::<E3_3_3>("E3_3_3")));
    v.push(marked!(E3_4_0, ops::<E3_4_0>("E3_4_0")));
    v.push(marked!(E3_4_1, ops::<E3_4_1>("E3_4_1")));
    v.push(marked!(E3_4_2, ops::<E3_4_2>("E3_4_2")));
    v.push(marked!(E3_4_3, ops::<E3_4_3>("E3_4_3")));
    v.push(marked!(E3_5_0, ops::<E3_5_0>("E3_5_0")));
    v.push(marked!(E3_5_1, ops::<E3_5_1>("E3_5_1")));
    v.push(marked!(E3_5_2, ops::<E3_5_2>("E3_5_2")));
    v.push(marked!(E3_5_3, ops::<E3_5_3>("E3_5_3")));
    v.push(marked!(E3_6_0, ops::<E3_6_0>("E3_6_0")));
    v.push(marked!(E3_6_1, ops::<E3_6_1>("E3_6_1")));
    v.push(marked!(E3_6_2, ops::<E3_6_2>("E3_6_2")));
    v.push(marked!(E3_6_3, ops::<E3_6_3>("E3_6_3")));
    v.push(marked!(E3_7_0, ops::<E3_7_0>("E3_7_0")));
    v.push(marked!(E3_7_1, ops::<E3_7_1>("E3_7_1")));
    v.push(marked!(E3_7_2, ops::<E3_7_2>("E3_7_2")));
    v.push(marked!(E3_7_3, ops::<E3_7_3>("E3_7_3")));
    v.push(marked!(E3_8_0, ops::<E3_8_0>("E3_8_0")));
    v.push(marked!(E3_8_1, ops::<E3_8_1>("E3_8_1")));
    v.push(marked!(E3_8_2, ops::<E3_8_2>("E3_8_2")));
    v.push(marked!(E3_8_3, ops::<E3_8_3>("E3_8_3")));
    v.push(marked!(E3_9_0, ops::<E3_9_0>("E3_9_0")));
    v.push(marked!(E3_9_1, ops::<E3_9_1>("E3_9_1")));
    v.push(marked!(E3_9_2, ops::<E3_9_2>("E3_9_2")));
    v.push(marked!(E3_9_3, ops::<E3_9_3>("E3_9_3")));
    v.push(marked!(E3_10_0, ops::<E3_10_0>("E3_10_0")));
    v.push(marked!(E3_10_1, ops::<E3_10_1>("E3_10_1")));
    v.push(marked!(E3_10_2, ops::<E3_10_2>("E3_10_2")));
    v.push(marked!(E3_10_3, ops::<E3_10_3>("E3_10_3")));
    v.push(marked!(E3_11_0, ops::<E3_11_0>("E3_11_0")));
    v.push(marked!(E3_11_1, ops::<E3_11_1>("E3_11_1")));
    v.push(marked!(E3_11_2, ops::<E3_11_2>("E3_11_2")));
    v.push(marked!(E3_11_3, ops::<E3_11_3>("E3_11_3")));
    v.push(marked!(E3_12_0, ops::<E3_12_0>("E3_12_0")));
    v.push(marked!(E3_12_1, ops::<E3_12_1>("E3_12_1")));
    v.push(marked!(E3_12_2, ops::<E3_12_2>("E3_12_2")));
    v.push(marked!(E3_12_3, ops::<E3_12_3>("E3_12_3")));
    v.push(marked!(E3_13_0, ops::<E3_13_0>("E3_13_0")));
    v.push(marked!(E3_13_1, ops::<E3_13_1>("E3_13_1")));
    v.push(marked!(E3_13_2, ops::<E3_13_2>("E3_13_2")));
    v.push(marked!(E3_13_3, ops::<E3_13_3>("E3_13_3")));
    v.push(marked!(OverEb, ops::<OverEb>("OverEb")));
    v.push(marked!(OverEb2, ops::<OverEb2>("OverEb2")));
}
fn types21(v: &mut Vec<Ops>) {
    v.push(marked!(OverEaU, ops::<OverEaU>("OverEaU")));
    v.push(marked!(OverEaN, ops::<OverEaN>("OverEaN")));
    v.push(marked!(OverEbU, ops::<OverEbU>("OverEbU")));
    v.push(marked!(OverEc, ops::<OverEc>("OverEc")));
    v.push(marked!(OverEcD, ops::<OverEcD>("OverEcD")));
    v.push(marked!(OverRen, ops::<OverRen>("OverRen")));
    v.push(marked!(OverTag, ops::<OverTag>("OverTag")));
    v.push(marked!(OverSt, ops::<OverSt>("OverSt")));
    v.push(marked!(OverStE, ops::<OverStE>("OverStE")));
    v.push(marked!(OverTwo, ops::<OverTwo>("OverTwo")));
    v.push(marked!(OverNum, ops::<OverNum>("OverNum")));
    v.push(marked!(OverStr, ops::<OverStr>("OverStr")));
    v.push(marked!(OverOpt, ops::<OverOpt>("OverOpt")));
    v.push(marked!(OverVec, ops::<OverVec>("OverVec")));
    v.push(marked!(OverMap, ops::<OverMap>("OverMap")));
    v.push(marked!(Alike, ops::<Alike>("Alike")));
    v.push(marked!(SwapN, ops::<SwapN>("SwapN")));
    v.push(marked!(SwapT, ops::<SwapT>("SwapT")));
    v.push(marked!(SameShape, ops::<SameShape>("SameShape")));
    v.push(marked!(UnitAndContent, ops::<UnitAndContent>("UnitAndContent")));
    v.push(marked!(Discr, ops::<Discr>("Discr")));
    v.push(marked!(DiscrBig, ops::<DiscrBig>("DiscrBig")));
    v.push(marked!(DiscrU, ops::<DiscrU>("DiscrU")));
    v.push(marked!(DiscrAndName, ops::<DiscrAndName>("DiscrAndName")));
    v.push(marked!(ContentDiscr, ops::<ContentDiscr>("ContentDiscr")));
    v.push(marked!(Many, ops::<Many>("Many")));
    v.push(marked!(ManyU, ops::<ManyU>("ManyU")));
    v.push(marked!(ManyN, ops::<ManyN>("ManyN")));
    v.push(marked!(Many300, ops::<Many300>("Many300")));
    v.push(marked!(Many300D, ops::<Many300D>("Many300D")));
    v.push(marked!(Many70T, ops::<Many70T>("Many70T")));
    v.push(marked!(Names, ops::<Names>("Names")));
    v.push(marked!(NamesT, ops::<NamesT>("NamesT")));
    v.push(marked!(NamesU, enc_ops::<NamesU>("NamesU")));
    v.push(marked!(Words, ops::<Words>("Words")));
    v.push(marked!(Words2, ops::<Words2>("Words2")));
    v.push(marked!(Words3, ops::<Words3>("Words3")));
    v.push(marked!(WD0, ops::<WD0>("WD0")));
    v.push(marked!(WD1, ops::<WD1>("WD1")));
    v.push(marked!(WD2, ops::<WD2>("WD2")));
    v.push(marked!(WD3, ops::<WD3>("WD3")));
    v.push(marked!(WD4, ops::<WD4>("WD4")));
    v.push(marked!(WDS, ops::<WDS>("WDS")));
    v.push(marked!(T_Unit, ops::<T_Unit>("T_Unit")));
    v.push(marked!(T_Unit_Unit, ops::<T_Unit_Unit>("T_Unit_Unit")));
    v.push(marked!(TM_Unit_Unit, ops::<TM_Unit_Unit>("TM_Unit_Unit")));
    v.push(marked!(T_Unit_UText, ops::<T_Unit_UText>("T_Unit_UText")));
    v.push(marked!(TM_Unit_UText, ops::<TM_Unit_UText>("TM_Unit_UText")));
    v.push(marked!(T_Unit_UNum, ops::<T_Unit_UNum>("T_Unit_UNum")));
    v.push(marked!(TM_Unit_UNum, ops::<TM_Unit_UNum>("TM_Unit_UNum")));
}
fn types22(v: &mut Vec<Ops>) {
    v.push(marked!(T_Unit_UStruct, ops::<T_Unit_UStruct>("T_Unit_UStruct")));
    v.push(marked!(TM_Unit_UStruct, ops::<TM_Unit_UStruct>("TM_Unit_UStruct")));
    v.push(marked!(T_Unit_UUnk, ops::<T_Unit_UUnk>("T_Unit_UUnk")));
    v.push(marked!(TM_Unit_UUnk, ops::<TM_Unit_UUnk>("TM_Unit_UUnk")));
    v.push(marked!(T_Unit_Named, ops::<T_Unit_Named>("T_Unit_Named")));
    v.push(marked!(TM_Unit_Named, ops::<TM_Unit_Named>("TM_Unit_Named")));
    v.push(marked!(T_Unit_NNum, ops::<T_Unit_NNum>("T_Unit_NNum")));
    v.push(marked!(TM_Unit_NNum, ops::<TM_Unit_NNum>("TM_Unit_NNum")));
    v.push(marked!(T_Unit_NMix, ops::<T_Unit_NMix>("T_Unit_NMix")));
    v.push(marked!(TM_Unit_NMix, ops::<TM_Unit_NMix>("TM_Unit_NMix")));
    v.push(marked!(T_Unit_N0, ops::<T_Unit_N0>("T_Unit_N0")));
    v.push(marked!(TM_Unit_N0, ops::<TM_Unit_N0>("TM_Unit_N0")));
    v.push(marked!(T_Unit_NUnk, ops::<T_Unit_NUnk>("T_Unit_NUnk")));
    v.push(marked!(TM_Unit_NUnk, ops::<TM_Unit_NUnk>("TM_Unit_NUnk")));
    v.push(marked!(T_Unit_NNM, ops::<T_Unit_NNM>("T_Unit_NNM")));
    v.push(marked!(TM_Unit_NNM, ops::<TM_Unit_NNM>("TM_Unit_NNM")));
    v.push(marked!(T_Unit_NNS, ops::<T_Unit_NNS>("T_Unit_NNS")));
    v.push(marked!(TM_Unit_NNS, ops::<TM_Unit_NNS>("TM_Unit_NNS")));
    v.push(marked!(T_Unit_NMap, ops::<T_Unit_NMap>("T_Unit_NMap")));
    v.push(marked!(TM_Unit_NMap, ops::<TM_Unit_NMap>("TM_Unit_NMap")));
    v.push(marked!(T_Unit_NTag, ops::<T_Unit_NTag>("T_Unit_NTag")));
    v.push(marked!(TM_Unit_NTag, ops::<TM_Unit_NTag>("TM_Unit_NTag")));
    v.push(marked!(T_Unit_NCod, ops::<T_Unit_NCod>("T_Unit_NCod")));
    v.push(marked!(TM_Unit_NCod, ops::<TM_Unit_NCod>("TM_Unit_NCod")));
    v.push(marked!(T_Unit_SUnit, ops::<T_Unit_SUnit>("T_Unit_SUnit")));
    v.push(marked!(T_Unit_SNamed, ops::<T_Unit_SNamed>("T_Unit_SNamed")));
    v.push(marked!(TM_Unit_SNamed, ops::<TM_Unit_SNamed>("TM_Unit_SNamed")));
    v.push(marked!(T_Unit_SStruct, ops::<T_Unit_SStruct>("T_Unit_SStruct")));
    v.push(marked!(T_Unit_SMap, ops::<T_Unit_SMap>("T_Unit_SMap")));
    v.push(marked!(T_UText, ops::<T_UText>("T_UText")));
    v.push(marked!(T_UText_Unit, ops::<T_UText_Unit>("T_UText_Unit")));
    v.push(marked!(TM_UText_Unit, ops::<TM_UText_Unit>("TM_UText_Unit")));
    v.push(marked!(T_UText_UText, ops::<T_UText_UText>("T_UText_UText")));
    v.push(marked!(TM_UText_UText, ops::<TM_UText_UText>("TM_UText_UText")));
    v.push(marked!(T_UText_UNum, ops::<T_UText_UNum>("T_UText_UNum")));
    v.push(marked!(TM_UText_UNum, ops::<TM_UText_UNum>("TM_UText_UNum")));
    v.push(marked!(T_UText_UStruct, ops::<T_UText_UStruct>("T_UText_UStruct")));
    v.push(marked!(TM_UText_UStruct, ops::<TM_UText_UStruct>("TM_UText_UStruct")));
    v.push(marked!(T_UText_UUnk, ops::<T_UText_UUnk>("T_UText_UUnk")));
    v.push(marked!(TM_UText_UUnk, ops::<TM_UText_UUnk>("TM_UText_UUnk")));
    v.push(marked!(T_UText_Named, ops::<T_UText_Named>("T_UText_Named")));
    v.push(marked!(TM_UText_Named, ops::<TM_UText_Named>("TM_UText_Named")));
    v.push(marked!(T_UText_NNum, ops::<T_UText_NNum>("T_UText_NNum")));
    v.push(marked!(TM_UText_NNum, ops::<TM_UText_NNum>("TM_UText_NNum")));
    v.push(marked!(T_UText_NMix, ops::<T_UText_NMix>("T_UText_NMix")));
    v.push(marked!(TM_UText_NMix, ops::<TM_UText_NMix>("TM_UText_NMix")));
    v.push(marked!(T_UText_N0, ops::<T_UText_N0>("T_UText_N0")));
    v.push(marked!(TM_UText_N0, ops::<TM_UText_N0>("TM_UText_N0")));
    v.push(marked!(T_UText_NUnk, ops::<T_UText_NUnk>("T_UText_NUnk")));
    v.push(marked!(TM_UText_NUnk, ops::<TM_UText_NUnk>("TM_UText_NUnk")));
}
fn types23(v: &mut Vec<Ops>) {
    v.push(marked!(T_UText_NNM, ops::<T_UText_NNM>("T_UText_NNM")));
    v.push(marked!(TM_UText_NNM, ops::<TM_UText_NNM>("TM_UText_NNM")));
    v.push(marked!(T_UText_NNS, ops::<T_UText_NNS>("T_UText_NNS")));
    v.push(marked!(TM_UText_NNS, ops::<TM_UText_NNS>("TM_UText_NNS")));
    v.push(marked!(T_UText_NMap, ops::<T_UText_NMap>("T_UText_NMap")));
    v.push(marked!(TM_UText_NMap, ops::<TM_UText_NMap>("TM_UText_NMap")));
    v.push(marked!(T_UText_NTag, ops::<T_UText_NTag>("T_UText_NTag")));
    v.push(marked!(TM_UText_NTag, ops::<TM_UText_NTag>("TM_UText_NTag")));
    v.push(marked!(T_UText_NCod, ops::<T_UText_NCod>("T_UText_NCod")));
    v.push(marked!(TM_UText_NCod, ops::<TM_UText_NCod>("TM_UText_NCod")));
    v.push(marked!(T_UText_SUnit, ops::<T_UText_SUnit>("T_UText_SUnit")));
    v.push(marked!(TM_UText_SUnit, ops::<TM_UText_SUnit>("TM_UText_SUnit")));
    v.push(marked!(T_UText_SNamed, ops::<T_UText_SNamed>("T_UText_SNamed")));
    v.push(marked!(T_UText_SStruct, ops::<T_UText_SStruct>("T_UText_SStruct")));
    v.push(marked!(T_UText_SMap, ops::<T_UText_SMap>("T_UText_SMap")));
    v.push(marked!(T_UNum, ops::<T_UNum>("T_UNum")));
    v.push(marked!(T_UNum_Unit, ops::<T_UNum_Unit>("T_UNum_Unit")));
    v.push(marked!(TM_UNum_Unit, ops::<TM_UNum_Unit>("TM_UNum_Unit")));
    v.push(marked!(T_UNum_UText, ops::<T_UNum_UText>("T_UNum_UText")));
    v.push(marked!(TM_UNum_UText, ops::<TM_UNum_UText>("TM_UNum_UText")));
    v.push(marked!(T_UNum_UNum, ops::<T_UNum_UNum>("T_UNum_UNum")));
    v.push(marked!(TM_UNum_UNum, ops::<TM_UNum_UNum>("TM_UNum_UNum")));
    v.push(marked!(T_UNum_UStruct, ops::<T_UNum_UStruct>("T_UNum_UStruct")));
    v.push(marked!(TM_UNum_UStruct, ops::<TM_UNum_UStruct>("TM_UNum_UStruct")));
    v.push(marked!(T_UNum_UUnk, ops::<T_UNum_UUnk>("T_UNum_UUnk")));
    v.push(marked!(TM_UNum_UUnk, ops::<TM_UNum_UUnk>("TM_UNum_UUnk")));
    v.push(marked!(T_UNum_Named, ops::<T_UNum_Named>("T_UNum_Named")));
    v.push(marked!(TM_UNum_Named, ops::<TM_UNum_Named>("TM_UNum_Named")));
    v.push(marked!(T_UNum_NNum, ops::<T_UNum_NNum>("T_UNum_NNum")));
    v.push(marked!(TM_UNum_NNum, ops::<TM_UNum_NNum>("TM_UNum_NNum")));
    v.push(marked!(T_UNum_NMix, ops::<T_UNum_NMix>("T_UNum_NMix")));
    v.push(marked!(TM_UNum_NMix, ops::<TM_UNum_NMix>("TM_UNum_NMix")));
    v.push(marked!(T_UNum_N0, ops::<T_UNum_N0>("T_UNum_N0")));
    v.push(marked!(TM_UNum_N0, ops::<TM_UNum_N0>("TM_UNum_N0")));
    v.push(marked!(T_UNum_NUnk, ops::<T_UNum_NUnk>("T_UNum_NUnk")));
    v.push(marked!(TM_UNum_NUnk, ops::<TM_UNum_NUnk>("TM_UNum_NUnk")));
    v.push(marked!(T_UNum_NNM, ops::<T_UNum_NNM>("T_UNum_NNM")));
    v.push(marked!(TM_UNum_NNM, ops::<TM_UNum_NNM>("TM_UNum_NNM")));
    v.push(marked!(T_UNum_NNS, ops::<T_UNum_NNS>("T_UNum_NNS")));
    v.push(marked!(TM_UNum_NNS, ops::<TM_UNum_NNS>("TM_UNum_NNS")));
    v.push(marked!(T_UNum_NMap, ops::<T_UNum_NMap>("T_UNum_NMap")));
    v.push(marked!(TM_UNum_NMap, ops::<TM_UNum_NMap>("TM_UNum_NMap")));
    v.push(marked!(T_UNum_NTag, ops::<T_UNum_NTag>("T_UNum_NTag")));
    v.push(marked!(TM_UNum_NTag, ops::<TM_UNum_NTag>("TM_UNum_NTag")));
    v.push(marked!(T_UNum_NCod, ops::<T_UNum_NCod>("T_UNum_NCod")));
    v.push(marked!(TM_UNum_NCod, ops::<TM_UNum_NCod>("TM_UNum_NCod")));
    v.push(marked!(T_UNum_SUnit, ops::<T_UNum_SUnit>("T_UNum_SUnit")));
    v.push(marked!(T_UNum_SNamed, ops::<T_UNum_SNamed>("T_UNum_SNamed")));
    v.push(marked!(TM_UNum_SNamed, ops::<TM_UNum_SNamed>("TM_UNum_SNamed")));
    v.push(marked!(T_UNum_SStruct, ops::<T_UNum_SStruct>("T_UNum_SStruct")));
}
fn types24(v: &mut Vec<Ops>) {
    v.push(marked!(T_UNum_SMap, ops::<T_UNum_SMap>("T_UNum_SMap")));
    v.push(marked!(T_UStruct, ops::<T_UStruct>("T_UStruct")));
    v.push(marked!(T_UStruct_Unit, ops::<T_UStruct_Unit>("T_UStruct_Unit")));
    v.push(marked!(TM_UStruct_Unit, ops::<TM_UStruct_Unit>("TM_UStruct_Unit")));
    v.push(marked!(T_UStruct_UText, ops::<T_UStruct_UText>("T_UStruct_UText")));
    v.push(marked!(TM_UStruct_UText, ops::<TM_UStruct_UText>("TM_UStruct_UText")));
    v.push(marked!(T_UStruct_UNum, ops::<T_UStruct_UNum>("T_UStruct_UNum")));
    v.push(marked!(TM_UStruct_UNum, ops::<TM_UStruct_UNum>("TM_UStruct_UNum")));
    v.push(marked!(T_UStruct_UStruct, ops::<T_UStruct_UStruct>("T_UStruct_UStruct")));
    v.push(marked!(TM_UStruct_UStruct, ops::<TM_UStruct_UStruct>("TM_UStruct_UStruct")));
    v.push(marked!(T_UStruct_UUnk, ops::<T_UStruct_UUnk>("T_UStruct_UUnk")));
    v.push(marked!(TM_UStruct_UUnk, ops::<TM_UStruct_UUnk>("TM_UStruct_UUnk")));
    v.push(marked!(T_UStruct_Named, ops::<T_UStruct_Named>("T_UStruct_Named")));
    v.push(marked!(TM_UStruct_Named, ops::<TM_UStruct_Named>("TM_UStruct_Named")));
    v.push(marked!(T_UStruct_NNum, ops::<T_UStruct_NNum>("T_UStruct_NNum")));
    v.push(marked!(TM_UStruct_NNum, ops::<TM_UStruct_NNum>("TM_UStruct_NNum")));
    v.push(marked!(T_UStruct_NMix, ops::<T_UStruct_NMix>("T_UStruct_NMix")));
    v.push(marked!(TM_UStruct_NMix, ops::<TM_UStruct_NMix>("TM_UStruct_NMix")));
    v.push(marked!(T_UStruct_N0, ops::<T_UStruct_N0>("T_UStruct_N0")));
    v.push(marked!(TM_UStruct_N0, ops::<TM_UStruct_N0>("TM_UStruct_N0")));
    v.push(marked!(T_UStruct_NUnk, ops::<T_UStruct_NUnk>("T_UStruct_NUnk")));
    v.push(marked!(TM_UStruct_NUnk, ops::<TM_UStruct_NUnk>("TM_UStruct_NUnk")));
    v.push(marked!(T_UStruct_NNM, ops::<T_UStruct_NNM>("T_UStruct_NNM")));
    v.push(marked!(TM_UStruct_NNM, ops::<TM_UStruct_NNM>("TM_UStruct_NNM")));
    v.push(marked!(T_UStruct_NNS, ops::<T_UStruct_NNS>("T_UStruct_NNS")));
    v.push(marked!(TM_UStruct_NNS, ops::<TM_UStruct_NNS>("TM_UStruct_NNS")));
    v.push(marked!(T_UStruct_NMap, ops::<T_UStruct_NMap>("T_UStruct_NMap")));
    v.push(marked!(TM_UStruct_NMap, ops::<TM_UStruct_NMap>("TM_UStruct_NMap")));
    v.push(marked!(T_UStruct_NTag, ops::<T_UStruct_NTag>("T_UStruct_NTag")));
    v.push(marked!(TM_UStruct_NTag, ops::<TM_UStruct_NTag>("TM_UStruct_NTag")));
    v.push(marked!(T_UStruct_NCod, ops::<T_UStruct_NCod>("T_UStruct_NCod")));
    v.push(marked!(TM_UStruct_NCod, ops::<TM_UStruct_NCod>("TM_UStruct_NCod")));
    v.push(marked!(T_UStruct_SUnit, ops::<T_UStruct_SUnit>("T_UStruct_SUnit")));
    v.push(marked!(T_UStruct_SNamed, ops::<T_UStruct_SNamed>("T_UStruct_SNamed")));
    v.push(marked!(T_UStruct_SStruct, ops::<T_UStruct_SStruct>("T_UStruct_SStruct")));
    v.push(marked!(TM_UStruct_SStruct, ops::<TM_UStruct_SStruct>("TM_UStruct_SStruct")));
    v.push(marked!(T_UStruct_SMap, ops::<T_UStruct_SMap>("T_UStruct_SMap")));
    v.push(marked!(T_UUnk, ops::<T_UUnk>("T_UUnk")));
    v.push(marked!(T_UUnk_Unit, ops::<T_UUnk_Unit>("T_UUnk_Unit")));
    v.push(marked!(TM_UUnk_Unit, ops::<TM_UUnk_Unit>("TM_UUnk_Unit")));
    v.push(marked!(T_UUnk_UText, ops::<T_UUnk_UText>("T_UUnk_UText")));
    v.push(marked!(TM_UUnk_UText, ops::<TM_UUnk_UText>("TM_UUnk_UText")));
    v.push(marked!(T_UUnk_UNum, ops::<T_UUnk_UNum>("T_UUnk_UNum")));
    v.push(marked!(TM_UUnk_UNum, ops::<TM_UUnk_UNum>("TM_UUnk_UNum")));
    v.push(marked!(T_UUnk_UStruct, ops::<T_UUnk_UStruct>("T_UUnk_UStruct")));
    v.push(marked!(TM_UUnk_UStruct, ops::<TM_UUnk_UStruct>("TM_UUnk_UStruct")));
    v.push(marked!(T_UUnk_UUnk, ops::<T_UUnk_UUnk>("T_UUnk_UUnk")));
    v.push(marked!(TM_UUnk_UUnk, ops::<TM_UUnk_UUnk>("TM_UUnk_UUnk")));
    v.push(marked!(T_UUnk_Named, ops::<T_UUnk_Named>("T_UUnk_Named")));
    v.push(marked!(TM_UUnk_Named, ops::<TM_UUnk_Named>("TM_UUnk_Named")));
}
fn types25(v: &mut Vec<Ops>) {
    v.push(marked!(T_UUnk_NNum, ops::<T_UUnk_NNum>("T_UUnk_NNum")));
    v.push(marked!(TM_UUnk_NNum, ops::<TM_UUnk_NNum>("TM_UUnk_NNum")));
    v.push(marked!(T_UUnk_NMix, ops::<T_UUnk_NMix>("T_UUnk_NMix")));
    v.push(marked!(TM_UUnk_NMix, ops::<TM_UUnk_NMix>("TM_UUnk_NMix")));
    v.push(marked!(T_UUnk_N0, ops::<T_UUnk_N0>("T_UUnk_N0")));
    v.push(marked!(TM_UUnk_N0, ops::<TM_UUnk_N0>("TM_UUnk_N0")));
    v.push(marked!(T_UUnk_NUnk, ops::<T_UUnk_NUnk>("T_UUnk_NUnk")));
    v.push(marked!(TM_UUnk_NUnk, ops::<TM_UUnk_NUnk>("TM_UUnk_NUnk")));
    v.push(marked!(T_UUnk_NNM, ops::<T_UUnk_NNM>("T_UUnk_NNM")));
    v.push(marked!(TM_UUnk_NNM, ops::<TM_UUnk_NNM>("TM_UUnk_NNM")));
    v.push(marked!(T_UUnk_NNS, ops::<T_UUnk_NNS>("T_UUnk_NNS")));
    v.push(marked!(TM_UUnk_NNS, ops::<TM_UUnk_NNS>("TM_UUnk_NNS")));
    v.push(marked!(T_UUnk_NMap, ops::<T_UUnk_NMap>("T_UUnk_NMap")));
    v.push(marked!(TM_UUnk_NMap, ops::<TM_UUnk_NMap>("TM_UUnk_NMap")));
    v.push(marked!(T_UUnk_NTag, ops::<T_UUnk_NTag>("T_UUnk_NTag")));
    v.push(marked!(TM_UUnk_NTag, ops::<TM_UUnk_NTag>("TM_UUnk_NTag")));
    v.push(marked!(T_UUnk_NCod, ops::<T_UUnk_NCod>("T_UUnk_NCod")));
    v.push(marked!(TM_UUnk_NCod, ops::<TM_UUnk_NCod>("TM_UUnk_NCod")));
    v.push(marked!(T_UUnk_SUnit, ops::<T_UUnk_SUnit>("T_UUnk_SUnit")));
    v.push(marked!(T_UUnk_SNamed, ops::<T_UUnk_SNamed>("T_UUnk_SNamed")));
    v.push(marked!(TM_UUnk_SNamed, ops::<TM_UUnk_SNamed>("TM_UUnk_SNamed")));
    v.push(marked!(T_UUnk_SStruct, ops::<T_UUnk_SStruct>("T_UUnk_SStruct")));
    v.push(marked!(T_UUnk_SMap, ops::<T_UUnk_SMap>("T_UUnk_SMap")));
    v.push(marked!(T_Named, ops::<T_Named>("T_Named")));
    v.push(marked!(T_Named_Unit, ops::<T_Named_Unit>("T_Named_Unit")));
    v.push(marked!(TM_Named_Unit, ops::<TM_Named_Unit>("TM_Named_Unit")));
    v.push(marked!(T_Named_UText, ops::<T_Named_UText>("T_Named_UText")));
    v.push(marked!(TM_Named_UText, ops::<TM_Named_UText>("TM_Named_UText")));
    v.push(marked!(T_Named_UNum, ops::<T_Named_UNum>("T_Named_UNum")));
    v.push(marked!(TM_Named_UNum, ops::<TM_Named_UNum>("TM_Named_UNum")));
    v.push(marked!(T_Named_UStruct, ops::<T_Named_UStruct>("T_Named_UStruct")));
    v.push(marked!(TM_Named_UStruct, ops::<TM_Named_UStruct>("TM_Named_UStruct")));
    v.push(marked!(T_Named_UUnk, ops::<T_Named_UUnk>("T_Named_UUnk")));
    v.push(marked!(TM_Named_UUnk, ops::<TM_Named_UUnk>("TM_Named_UUnk")));
    v.push(marked!(T_Named_Named, ops::<T_Named_Named>("T_Named_Named")));
    v.push(marked!(TM_Named_Named, ops::<TM_Named_Named>("TM_Named_Named")));
    v.push(marked!(T_Named_NNum, ops::<T_Named_NNum>("T_Named_NNum")));
    v.push(marked!(TM_Named_NNum, ops::<TM_Named_NNum>("TM_Named_NNum")));
    v.push(marked!(T_Named_NMix, ops::<T_Named_NMix>("T_Named_NMix")));
    v.push(marked!(TM_Named_NMix, ops::<TM_Named_NMix>("TM_Named_NMix")));
    v.push(marked!(T_Named_N0, ops::<T_Named_N0>("T_Named_N0")));
    v.push(marked!(TM_Named_N0, ops::<TM_Named_N0>("TM_Named_N0")));
    v.push(marked!(T_Named_NUnk, ops::<T_Named_NUnk>("T_Named_NUnk")));
    v.push(marked!(TM_Named_NUnk, ops::<TM_Named_NUnk>("TM_Named_NUnk")));
    v.push(marked!(T_Named_NNM, ops::<T_Named_NNM>("T_Named_NNM")));
    v.push(marked!(TM_Named_NNM, ops::<TM_Named_NNM>("TM_Named_NNM")));
    v.push(marked!(T_Named_NNS, ops::<T_Named_NNS>("T_Named_NNS")));
    v.push(marked!(TM_Named_NNS, ops::<TM_Named_NNS>("TM_Named_NNS")));
    v.push(marked!(T_Named_NMap, ops::<T_Named_NMap>("T_Named_NMap")));
    v.push(marked!(TM_Named_NMap, ops::<TM_Named_NMap>("TM_Named_NMap")));
}
fn types26(v: &mut Vec<Ops>) {
    v.push(marked!(T_Named_NTag, ops::<T_Named_NTag>("T_Named_NTag")));
    v.push(marked!(TM_Named_NTag, ops::<TM_Named_NTag>("TM_Named_NTag")));
    v.push(marked!(T_Named_NCod, ops::<T_Named_NCod>("T_Named_NCod")));
    v.push(marked!(TM_Named_NCod, ops::<TM_Named_NCod>("TM_Named_NCod")));
    v.push(marked!(T_Named_SUnit, ops::<T_Named_SUnit>("T_Named_SUnit")));
    v.push(marked!(TM_Named_SUnit, ops::<TM_Named_SUnit>("TM_Named_SUnit")));
    v.push(marked!(T_Named_SNamed, ops::<T_Named_SNamed>("T_Named_SNamed")));
    v.push(marked!(T_Named_SStruct, ops::<T_Named_SStruct>("T_Named_SStruct")));
    v.push(marked!(T_Named_SMap, ops::<T_Named_SMap>("T_Named_SMap")));
    v.push(marked!(T_NNum, ops::<T_NNum>("T_NNum")));
    v.push(marked!(T_NNum_Unit, ops::<T_NNum_Unit>("T_NNum_Unit")));
    v.push(marked!(TM_NNum_Unit, ops::<TM_NNum_Unit>("TM_NNum_Unit")));
    v.push(marked!(T_NNum_UText, ops::<T_NNum_UText>("T_NNum_UText")));
    v.push(marked!(TM_NNum_UText, ops::<TM_NNum_UText>("TM_NNum_UText")));
    v.push(marked!(T_NNum_UNum, ops::<T_NNum_UNum>("T_NNum_UNum")));
    v.push(marked!(TM_NNum_UNum, ops::<TM_NNum_UNum>("TM_NNum_UNum")));
    v.push(marked!(T_NNum_UStruct, ops::<T_NNum_UStruct>("T_NNum_UStruct")));
    v.push(marked!(TM_NNum_UStruct, ops::<TM_NNum_UStruct>("TM_NNum_UStruct")));
    v.push(marked!(T_NNum_UUnk, ops::<T_NNum_UUnk>("T_NNum_UUnk")));
    v.push(marked!(TM_NNum_UUnk, ops::<TM_NNum_UUnk>("TM_NNum_UUnk")));
    v.push(marked!(T_NNum_Named, ops::<T_NNum_Named>("T_NNum_Named")));
    v.push(marked!(TM_NNum_Named, ops::<TM_NNum_Named>("TM_NNum_Named")));
    v.push(marked!(T_NNum_NNum, ops::<T_NNum_NNum>("T_NNum_NNum")));
    v.push(marked!(TM_NNum_NNum, ops::<TM_NNum_NNum>("TM_NNum_NNum")));
    v.push(marked!(T_NNum_NMix, ops::<T_NNum_NMix>("T_NNum_NMix")));
    v.push(marked!(TM_NNum_NMix, ops::<TM_NNum_NMix>("TM_NNum_NMix")));
    v.push(marked!(T_NNum_N0, ops::<T_NNum_N0>("T_NNum_N0")));
    v.push(marked!(TM_NNum_N0, ops::<TM_NNum_N0>("TM_NNum_N0")));
    v.push(marked!(T_NNum_NUnk, ops::<T_NNum_NUnk>("T_NNum_NUnk")));
    v.push(marked!(TM_NNum_NUnk, ops::<TM_NNum_NUnk>("TM_NNum_NUnk")));
    v.push(marked!(T_NNum_NNM, ops::<T_NNum_NNM>("T_NNum_NNM")));
    v.push(marked!(TM_NNum_NNM, ops::<TM_NNum_NNM>("TM_NNum_NNM")));
    v.push(marked!(T_NNum_NNS, ops::<T_NNum_NNS>("T_NNum_NNS")));
    v.push(marked!(TM_NNum_NNS, ops::<TM_NNum_NNS>("TM_NNum_NNS")));
    v.push(marked!(T_NNum_NMap, ops::<T_NNum_NMap>("T_NNum_NMap")));
    v.push(marked!(TM_NNum_NMap, ops::<TM_NNum_NMap>("TM_NNum_NMap")));
    v.push(marked!(T_NNum_NTag, ops::<T_NNum_NTag>("T_NNum_NTag")));
    v.push(marked!(TM_NNum_NTag, ops::<TM_NNum_NTag>("TM_NNum_NTag")));
    v.push(marked!(T_NNum_NCod, ops::<T_NNum_NCod>("T_NNum_NCod")));
    v.push(marked!(TM_NNum_NCod, ops::<TM_NNum_NCod>("TM_NNum_NCod")));
    v.push(marked!(T_NNum_SUnit, ops::<T_NNum_SUnit>("T_NNum_SUnit")));
    v.push(marked!(T_NNum_SNamed, ops::<T_NNum_SNamed>("T_NNum_SNamed")));
    v.push(marked!(TM_NNum_SNamed, ops::<TM_NNum_SNamed>("TM_NNum_SNamed")));
    v.push(marked!(T_NNum_SStruct, ops::<T_NNum_SStruct>("T_NNum_SStruct")));
    v.push(marked!(T_NNum_SMap, ops::<T_NNum_SMap>("T_NNum_SMap")));
    v.push(marked!(T_NMix, ops::<T_NMix>("T_NMix")));
    v.push(marked!(T_NMix_Unit, ops::<T_NMix_Unit>("T_NMix_Unit")));
    v.push(marked!(TM_NMix_Unit, ops::<TM_NMix_Unit>("TM_NMix_Unit")));
    v.push(marked!(T_NMix_UText, ops::<T_NMix_UText>("T_NMix_UText")));
    v.push(marked!(TM_NMix_UText, ops::<TM_NMix_UText>("TM_NMix_UText")));
}
fn types27(v: &mut Vec<Ops>) {
    v.push(marked!(T_NMix_UNum, ops::<T_NMix_UNum>("T_NMix_UNum")));
    v.push(marked!(TM_NMix_UNum, ops::<TM_NMix_UNum>("TM_NMix_UNum")));
    v.push(marked!(T_NMix_UStruct, ops::<T_NMix_UStruct>("T_NMix_UStruct")));
    v.push(marked!(TM_NMix_UStruct, ops::<TM_NMix_UStruct>("TM_NMix_UStruct")));
    v.push(marked!(T_NMix_UUnk, ops::<T_NMix_UUnk>("T_NMix_UUnk")));
    v.push(marked!(TM_NMix_UUnk, ops::<TM_NMix_UUnk>("TM_NMix_UUnk")));
    v.push(marked!(T_NMix_Named, ops::<T_NMix_Named>("T_NMix_Named")));
    v.push(marked!(TM_NMix_Named, ops::<TM_NMix_Named>("TM_NMix_Named")));
    v.push(marked!(T_NMix_NNum, ops::<T_NMix_NNum>("T_NMix_NNum")));
    v.push(marked!(TM_NMix_NNum, ops::<TM_NMix_NNum>("TM_NMix_NNum")));
    v.push(marked!(T_NMix_NMix, ops::<T_NMix_NMix>("T_NMix_NMix")));
    v.push(marked!(TM_NMix_NMix, ops::<TM_NMix_NMix>("TM_NMix_NMix")));
    v.push(marked!(T_NMix_N0, ops::<T_NMix_N0>("T_NMix_N0")));
    v.push(marked!(TM_NMix_N0, ops::<TM_NMix_N0>("TM_NMix_N0")));
    v.push(marked!(T_NMix_NUnk, ops::<T_NMix_NUnk>("T_NMix_NUnk")));
    v.push(marked!(TM_NMix_NUnk, ops::<TM_NMix_NUnk>("TM_NMix_NUnk")));
    v.push(marked!(T_NMix_NNM, ops::<T_NMix_NNM>("T_NMix_NNM")));
    v.push(marked!(TM_NMix_NNM, ops::<TM_NMix_NNM>("TM_NMix_NNM")));
    v.push(marked!(T_NMix_NNS, ops::<T_NMix_NNS>("T_NMix_NNS")));
    v.push(marked!(TM_NMix_NNS, ops::<TM_NMix_NNS>("TM_NMix_NNS")));
    v.push(marked!(T_NMix_NMap, ops::<T_NMix_NMap>("T_NMix_NMap")));
    v.push(marked!(TM_NMix_NMap, ops::<TM_NMix_NMap>("TM_NMix_NMap")));
    v.push(marked!(T_NMix_NTag, ops::<T_NMix_NTag>("T_NMix_NTag")));
    v.push(marked!(TM_NMix_NTag, ops::<TM_NMix_NTag>("TM_NMix_NTag")));
    v.push(marked!(T_NMix_NCod, ops::<T_NMix_NCod>("T_NMix_NCod")));
    v.push(marked!(TM_NMix_NCod, ops::<TM_NMix_NCod>("TM_NMix_NCod")));
    v.push(marked!(T_NMix_SUnit, ops::<T_NMix_SUnit>("T_NMix_SUnit")));
    v.push(marked!(T_NMix_SNamed, ops::<T_NMix_SNamed>("T_NMix_SNamed")));
    v.push(marked!(TM_NMix_SNamed, ops::<TM_NMix_SNamed>("TM_NMix_SNamed")));
    v.push(marked!(T_NMix_SStruct, ops::<T_NMix_SStruct>("T_NMix_SStruct")));
    v.push(marked!(T_NMix_SMap, ops::<T_NMix_SMap>("T_NMix_SMap")));
    v.push(marked!(T_N0, ops::<T_N0>("T_N0")));
    v.push(marked!(T_N0_Unit, ops::<T_N0_Unit>("T_N0_Unit")));
    v.push(marked!(TM_N0_Unit, ops::<TM_N0_Unit>("TM_N0_Unit")));
    v.push(marked!(T_N0_UText, ops::<T_N0_UText>("T_N0_UText")));
    v.push(marked!(TM_N0_UText, ops::<TM_N0_UText>("TM_N0_UText")));
    v.push(marked!(T_N0_UNum, ops::<T_N0_UNum>("T_N0_UNum")));
    v.push(marked!(TM_N0_UNum, ops::<TM_N0_UNum>("TM_N0_UNum")));
    v.push(marked!(T_N0_UStruct, ops::<T_N0_UStruct>("T_N0_UStruct")));
    v.push(marked!(TM_N0_UStruct, ops::<TM_N0_UStruct>("TM_N0_UStruct")));
    v.push(marked!(T_N0_UUnk, ops::<T_N0_UUnk>("T_N0_UUnk")));
    v.push(marked!(TM_N0_UUnk, ops::<TM_N0_UUnk>("TM_N0_UUnk")));
    v.push(marked!(T_N0_Named, ops::<T_N0_Named>("T_N0_Named")));
    v.push(marked!(TM_N0_Named, ops::<TM_N0_Named>("TM_N0_Named")));
    v.push(marked!(T_N0_NNum, ops::<T_N0_NNum>("T_N0_NNum")));
    v.push(marked!(TM_N0_NNum, ops::<TM_N0_NNum>("TM_N0_NNum")));
    v.push(marked!(T_N0_NMix, ops::<T_N0_NMix>("T_N0_NMix")));
    v.push(marked!(TM_N0_NMix, ops::<TM_N0_NMix>("TM_N0_NMix")));
    v.push(marked!(T_N0_N0, ops::<T_N0_N0>("T_N0_N0")));
    v.push(marked!(TM_N0_N0, ops::<TM_N0_N0>("TM_N0_N0")));
}
fn types28(v: &mut Vec<Ops>) {
    v.push(marked!(T_N0_NUnk, ops::<T_N0_NUnk>("T_N0_NUnk")));
    v.push(marked!(TM_N0_NUnk, ops::<TM_N0_NUnk>("TM_N0_NUnk")));
    v.push(marked!(T_N0_NNM, ops::<T_N0_NNM>("T_N0_NNM")));
    v.push(marked!(TM_N0_NNM, ops::<TM_N0_NNM>("TM_N0_NNM")));
    v.push(marked!(T_N0_NNS, ops::<T_N0_NNS>("T_N0_NNS")));
    v.push(marked!(TM_N0_NNS, ops::<TM_N0_NNS>("TM_N0_NNS")));
    v.push(marked!(T_N0_NMap, ops::<T_N0_NMap>("T_N0_NMap")));
    v.push(marked!(TM_N0_NMap, ops::<TM_N0_NMap>("TM_N0_NMap")));
    v.push(marked!(T_N0_NTag, ops::<T_N0_NTag>("T_N0_NTag")));
    v.push(marked!(TM_N0_NTag, ops::<TM_N0_NTag>("TM_N0_NTag")));
    v.push(marked!(T_N0_NCod, ops::<T_N0_NCod>("T_N0_NCod")));
    v.push(marked!(TM_N0_NCod, ops::<TM_N0_NCod>("TM_N0_NCod")));
    v.push(marked!(T_N0_SUnit, ops::<T_N0_SUnit>("T_N0_SUnit")));
    v.push(marked!(T_N0_SNamed, ops::<T_N0_SNamed>("T_N0_SNamed")));
    v.push(marked!(T_N0_SStruct, ops::<T_N0_SStruct>("T_N0_SStruct")));
    v.push(marked!(T_N0_SMap, ops::<T_N0_SMap>("T_N0_SMap")));
    v.push(marked!(TM_N0_SMap, ops::<TM_N0_SMap>("TM_N0_SMap")));
    v.push(marked!(T_NUnk, ops::<T_NUnk>("T_NUnk")));
    v.push(marked!(T_NUnk_Unit, ops::<T_NUnk_Unit>("T_NUnk_Unit")));
    v.push(marked!(TM_NUnk_Unit, ops::<TM_NUnk_Unit>("TM_NUnk_Unit")));
    v.push(marked!(T_NUnk_UText, ops::<T_NUnk_UText>("T_NUnk_UText")));
    v.push(marked!(TM_NUnk_UText, ops::<TM_NUnk_UText>("TM_NUnk_UText")));
    v.push(marked!(T_NUnk_UNum, ops::<T_NUnk_UNum>("T_NUnk_UNum")));
    v.push(marked!(TM_NUnk_UNum, ops::<TM_NUnk_UNum>("TM_NUnk_UNum")));
    v.push(marked!(T_NUnk_UStruct, ops::<T_NUnk_UStruct>("T_NUnk_UStruct")));
    v.push(marked!(TM_NUnk_UStruct, ops::<TM_NUnk_UStruct>("TM_NUnk_UStruct")));
    v.push(marked!(T_NUnk_UUnk, ops::<T_NUnk_UUnk>("T_NUnk_UUnk")));
    v.push(marked!(TM_NUnk_UUnk, ops::<TM_NUnk_UUnk>("TM_NUnk_UUnk")));
    v.push(marked!(T_NUnk_Named, ops::<T_NUnk_Named>("T_NUnk_Named")));
    v.push(marked!(TM_NUnk_Named, ops::<TM_NUnk_Named>("TM_NUnk_Named")));
    v.push(marked!(T_NUnk_NNum, ops::<T_NUnk_NNum>("T_NUnk_NNum")));
    v.push(marked!(TM_NUnk_NNum, ops::<TM_NUnk_NNum>("TM_NUnk_NNum")));
    v.push(marked!(T_NUnk_NMix, ops::<T_NUnk_NMix>("T_NUnk_NMix")));
    v.push(marked!(TM_NUnk_NMix, ops::<TM_NUnk_NMix>("TM_NUnk_NMix")));
    v.push(marked!(T_NUnk_N0, ops::<T_NUnk_N0>("T_NUnk_N0")));
    v.push(marked!(TM_NUnk_N0, ops::<TM_NUnk_N0>("TM_NUnk_N0")));
    v.push(marked!(T_NUnk_NUnk, ops::<T_NUnk_NUnk>("T_NUnk_NUnk")));
    v.push(marked!(TM_NUnk_NUnk, ops::<TM_NUnk_NUnk>("TM_NUnk_NUnk")));
    v.push(marked!(T_NUnk_NNM, ops::<T_NUnk_NNM>("T_NUnk_NNM")));
    v.push(marked!(TM_NUnk_NNM, ops::<TM_NUnk_NNM>("TM_NUnk_NNM")));
    v.push(marked!(T_NUnk_NNS, ops::<T_NUnk_NNS>("T_NUnk_NNS")));
    v.push(marked!(TM_NUnk_NNS, ops::<TM_NUnk_NNS>("TM_NUnk_NNS")));
    v.push(marked!(T_NUnk_NMap, ops::<T_NUnk_NMap>("T_NUnk_NMap")));
    v.push(marked!(TM_NUnk_NMap, ops::<TM_NUnk_NMap>("TM_NUnk_NMap")));
    v.push(marked!(T_NUnk_NTag, ops::<T_NUnk_NTag>("T_NUnk_NTag")));
    v.push(marked!(TM_NUnk_NTag, ops::<TM_NUnk_NTag>("TM_NUnk_NTag")));
    v.push(marked!(T_NUnk_NCod, ops::<T_NUnk_NCod>("T_NUnk_NCod")));
    v.push(marked!(TM_NUnk_NCod, ops::<TM_NUnk_NCod>("TM_NUnk_NCod")));
    v.push(marked!(T_NUnk_SUnit, ops::<T_NUnk_SUnit>("T_NUnk_SUnit")));
    v.push(marked!(T_NUnk_SNamed, ops::<T_NUnk_SNamed>("T_NUnk_SNamed")));
}
fn types29(v: &mut Vec<Ops>) {
    v.push(marked!(TM_NUnk_SNamed, ops::<TM_NUnk_SNamed>("TM_NUnk_SNamed")));
    v.push(marked!(T_NUnk_SStruct, ops::<T_NUnk_SStruct>("T_NUnk_SStruct")));
    v.push(marked!(T_NUnk_SMap, ops::<T_NUnk_SMap>("T_NUnk_SMap")));
    v.push(marked!(T_NNM, ops::<T_NNM>("T_NNM")));
    v.push(marked!(T_NNM_Unit, ops::<T_NNM_Unit>("T_NNM_Unit")));
    v.push(marked!(TM_NNM_Unit, ops::<TM_NNM_Unit>("TM_NNM_Unit")));
    v.push(marked!(T_NNM_UText, ops::<T_NNM_UText>("T_NNM_UText")));
    v.push(marked!(TM_NNM_UText, ops::<TM_NNM_UText>("TM_NNM_UText")));
    v.push(marked!(T_NNM_UNum, ops::<T_NNM_UNum>("T_NNM_UNum")));
    v.push(marked!(TM_NNM_UNum, ops::<TM_NNM_UNum>("TM_NNM_UNum")));
    v.push(marked!(T_NNM_UStruct, ops::<T_NNM_UStruct>("T_NNM_UStruct")));
    v.push(marked!(TM_NNM_UStruct, ops::<TM_NNM_UStruct>("TM_NNM_UStruct")));
    v.push(marked!(T_NNM_UUnk, ops::<T_NNM_UUnk>("T_NNM_UUnk")));
    v.push(marked!(TM_NNM_UUnk, ops::<TM_NNM_UUnk>("TM_NNM_UUnk")));
    v.push(marked!(T_NNM_Named, ops::<T_NNM_Named>("T_NNM_Named")));
    v.push(marked!(TM_NNM_Named, ops::<TM_NNM_Named>("TM_NNM_Named")));
    v.push(marked!(T_NNM_NNum, ops::<T_NNM_NNum>("T_NNM_NNum")));
    v.push(marked!(TM_NNM_NNum, ops::<TM_NNM_NNum>("TM_NNM_NNum")));
    v.push(marked!(T_NNM_NMix, ops::<T_NNM_NMix>("T_NNM_NMix")));
    v.push(marked!(TM_NNM_NMix, ops::<TM_NNM_NMix>("TM_NNM_NMix")));
    v.push(marked!(T_NNM_N0, ops::<T_NNM_N0>("T_NNM_N0")));
    v.push(marked!(TM_NNM_N0, ops::<TM_NNM_N0>("TM_NNM_N0")));
    v.push(marked!(T_NNM_NUnk, ops::<T_NNM_NUnk>("T_NNM_NUnk")));
    v.push(marked!(TM_NNM_NUnk, ops::<TM_NNM_NUnk>("TM_NNM_NUnk")));
    v.push(marked!(T_NNM_NNM, ops::<T_NNM_NNM>("T_NNM_NNM")));
    v.push(marked!(TM_NNM_NNM, ops::<TM_NNM_NNM>("TM_NNM_NNM")));
    v.push(marked!(T_NNM_NNS, ops::<T_NNM_NNS>("T_NNM_NNS")));
    v.push(marked!(TM_NNM_NNS, ops::<TM_NNM_NNS>("TM_NNM_NNS")));
    v.push(marked!(T_NNM_NMap, ops::<T_NNM_NMap>("T_NNM_NMap")));
    v.push(marked!(TM_NNM_NMap, ops::<TM_NNM_NMap>("TM_NNM_NMap")));
    v.push(marked!(T_NNM_NTag, ops::<T_NNM_NTag>("T_NNM_NTag")));
    v.push(marked!(TM_NNM_NTag, ops::<TM_NNM_NTag>("TM_NNM_NTag")));
    v.push(marked!(T_NNM_NCod, ops::<T_NNM_NCod>("T_NNM_NCod")));
    v.push(marked!(TM_NNM_NCod, ops::<TM_NNM_NCod>("TM_NNM_NCod")));
    v.push(marked!(T_NNM_SUnit, ops::<T_NNM_SUnit>("T_NNM_SUnit")));
    v.push(marked!(T_NNM_SNamed, ops::<T_NNM_SNamed>("T_NNM_SNamed")));
    v.push(marked!(T_NNM_SStruct, ops::<T_NNM_SStruct>("T_NNM_SStruct")));
    v.push(marked!(TM_NNM_SStruct, ops::<TM_NNM_SStruct>("TM_NNM_SStruct")));
    v.push(marked!(T_NNM_SMap, ops::<T_NNM_SMap>("T_NNM_SMap")));
    v.push(marked!(T_NNS, ops::<T_NNS>("T_NNS")));
    v.push(marked!(T_NNS_Unit, ops::<T_NNS_Unit>("T_NNS_Unit")));
    v.push(marked!(TM_NNS_Unit, ops::<TM_NNS_Unit>("TM_NNS_Unit")));
    v.push(marked!(T_NNS_UText, ops::<T_NNS_UText>("T_NNS_UText")));
    v.push(marked!(TM_NNS_UText, ops::<TM_NNS_UText>("TM_NNS_UText")));
    v.push(marked!(T_NNS_UNum, ops::<T_NNS_UNum>("T_NNS_UNum")));
    v.push(marked!(TM_NNS_UNum, ops::<TM_NNS_UNum>("TM_NNS_UNum")));
    v.push(marked!(T_NNS_UStruct, ops::<T_NNS_UStruct>("T_NNS_UStruct")));
    v.push(marked!(TM_NNS_UStruct, ops::<TM_NNS_UStruct>("TM_NNS_UStruct")));
    v.push(marked!(T_NNS_UUnk, ops::<T_NNS_UUnk>("T_NNS_UUnk")));
    v.push(marked!(TM_NNS_UUnk, ops::<TM_NNS_UUnk>("TM_NNS_UUnk")));
}
fn types30(v: &mut Vec<Ops>) {
    v.push(marked!(T_NNS_Named, ops::<T_NNS_Named>("T_NNS_Named")));
    v.push(marked!(TM_NNS_Named, ops::<TM_NNS_Named>("TM_NNS_Named")));
    v.push(marked!(T_NNS_NNum, ops::<T_NNS_NNum>("T_NNS_NNum")));
    v.push(marked!(TM_NNS_NNum, ops::<TM_NNS_NNum>("TM_NNS_NNum")));
    v.push(marked!(T_NNS_NMix, ops::<T_NNS_NMix>("T_NNS_NMix")));
    v.push(marked!(TM_NNS_NMix, ops::<TM_NNS_NMix>("TM_NNS_NMix")));
    v.push(marked!(T_NNS_N0, ops::<T_NNS_N0>("T_NNS_N0")));
    v.push(marked!(TM_NNS_N0, ops::<TM_NNS_N0>("TM_NNS_N0")));
    v.push(marked!(T_NNS_NUnk, ops::<T_NNS_NUnk>("T_NNS_NUnk")));
    v.push(marked!(TM_NNS_NUnk, ops::<TM_NNS_NUnk>("TM_NNS_NUnk")));
    v.push(marked!(T_NNS_NNM, ops::<T_NNS_NNM>("T_NNS_NNM")));
    v.push(marked!(TM_NNS_NNM, ops::<TM_NNS_NNM>("TM_NNS_NNM")));
    v.push(marked!(T_NNS_NNS, ops::<T_NNS_NNS>("T_NNS_NNS")));
    v.push(marked!(TM_NNS_NNS, ops::<TM_NNS_NNS>("TM_NNS_NNS")));
    v.push(marked!(T_NNS_NMap, ops::<T_NNS_NMap>("T_NNS_NMap")));
    v.push(marked!(TM_NNS_NMap, ops::<TM_NNS_NMap>("TM_NNS_NMap")));
    v.push(marked!(T_NNS_NTag, ops::<T_NNS_NTag>("T_NNS_NTag")));
    v.push(marked!(TM_NNS_NTag, ops::<TM_NNS_NTag>("TM_NNS_NTag")));
    v.push(marked!(T_NNS_NCod, ops::<T_NNS_NCod>("T_NNS_NCod")));
    v.push(marked!(TM_NNS_NCod, ops::<TM_NNS_NCod>("TM_NNS_NCod")));
    v.push(marked!(T_NNS_SUnit, ops::<T_NNS_SUnit>("T_NNS_SUnit")));
    v.push(marked!(T_NNS_SNamed, ops::<T_NNS_SNamed>("T_NNS_SNamed")));
    v.push(marked!(T_NNS_SStruct, ops::<T_NNS_SStruct>("T_NNS_SStruct")));
    v.push(marked!(TM_NNS_SStruct, ops::<TM_NNS_SStruct>("TM_NNS_SStruct")));
    v.push(marked!(T_NNS_SMap, ops::<T_NNS_SMap>("T_NNS_SMap")));
    v.push(marked!(T_NMap, ops::<T_NMap>("T_NMap")));
    v.push(marked!(T_NMap_Unit, ops::<T_NMap_Unit>("T_NMap_Unit")));
    v.push(marked!(TM_NMap_Unit, ops::<TM_NMap_Unit>("TM_NMap_Unit")));
    v.push(marked!(T_NMap_UText, ops::<T_NMap_UText>("T_NMap_UText")));
    v.push(marked!(TM_NMap_UText, ops::<TM_NMap_UText>("TM_NMap_UText")));
    v.push(marked!(T_NMap_UNum, ops::<T_NMap_UNum>("T_NMap_UNum")));
    v.push(marked!(TM_NMap_UNum, ops::<TM_NMap_UNum>("TM_NMap_UNum")));
    v.push(marked!(T_NMap_UStruct, ops::<T_NMap_UStruct>("T_NMap_UStruct")));
    v.push(marked!(TM_NMap_UStruct, ops::<TM_NMap_UStruct>("TM_NMap_UStruct")));
    v.push(marked!(T_NMap_UUnk, ops::<T_NMap_UUnk>("T_NMap_UUnk")));
    v.push(marked!(TM_NMap_UUnk, ops::<TM_NMap_UUnk>("TM_NMap_UUnk")));
    v.push(marked!(T_NMap_Named, ops::<T_NMap_Named>("T_NMap_Named")));
    v.push(marked!(TM_NMap_Named, ops::<TM_NMap_Named>("TM_NMap_Named")));
    v.push(marked!(T_NMap_NNum, ops::<T_NMap_NNum>("T_NMap_NNum")));
    v.push(marked!(TM_NMap_NNum, ops::<TM_NMap_NNum>("TM_NMap_NNum")));
    v.push(marked!(T_NMap_NMix, ops::<T_NMap_NMix>("T_NMap_NMix")));
    v.push(marked!(TM_NMap_NMix, ops::<TM_NMap_NMix>("TM_NMap_NMix")));
    v.push(marked!(T_NMap_N0, ops::<T_NMap_N0>("T_NMap_N0")));
    v.push(marked!(TM_NMap_N0, ops::<TM_NMap_N0>("TM_NMap_N0")));
    v.push(marked!(T_NMap_NUnk, ops::<T_NMap_NUnk>("T_NMap_NUnk")));
    v.push(marked!(TM_NMap_NUnk, ops::<TM_NMap_NUnk>("TM_NMap_NUnk")));
    v.push(marked!(T_NMap_NNM, ops::<T_NMap_NNM>("T_NMap_NNM")));
    v.push(marked!(TM_NMap_NNM, ops::<TM_NMap_NNM>("TM_NMap_NNM")));
    v.push(marked!(T_NMap_NNS, ops::<T_NMap_NNS>("T_NMap_NNS")));
    v.push(marked!(TM_NMap_NNS, ops::<TM_NMap_NNS>("TM_NMap_NNS")));
}
fn types31(v: &mut Vec<Ops>) {
    v.push(marked!(T_NMap_NMap, ops::<T_NMap_NMap>("T_NMap_NMap")));
    v.push(marked!(TM_NMap_NMap, ops::<TM_NMap_NMap>("TM_NMap_NMap")));
    v.push(marked!(T_NMap_NTag, ops::<T_NMap_NTag>("T_NMap_NTag")));
    v.push(marked!(TM_NMap_NTag, ops::<TM_NMap_NTag>("TM_NMap_NTag")));
    v.push(marked!(T_NMap_NCod, ops::<T_NMap_NCod>("T_NMap_NCod")));
    v.push(marked!(TM_NMap_NCod, ops::<TM_NMap_NCod>("TM_NMap_NCod")));
    v.push(marked!(T_NMap_SUnit, ops::<T_NMap_SUnit>("T_NMap_SUnit")));
    v.push(marked!(T_NMap_SNamed, ops::<T_NMap_SNamed>("T_NMap_SNamed")));
    v.push(marked!(TM_NMap_SNamed, ops::<TM_NMap_SNamed>("TM_NMap_SNamed")));
    v.push(marked!(T_NMap_SStruct, ops::<T_NMap_SStruct>("T_NMap_SStruct")));
    v.push(marked!(T_NMap_SMap, ops::<T_NMap_SMap>("T_NMap_SMap")));
    v.push(marked!(T_NTag, ops::<T_NTag>("T_NTag")));
    v.push(marked!(T_NTag_Unit, ops::<T_NTag_Unit>("T_NTag_Unit")));
    v.push(marked!(TM_NTag_Unit, ops::<TM_NTag_Unit>("TM_NTag_Unit")));
    v.push(marked!(T_NTag_UText, ops::<T_NTag_UText>("T_NTag_UText")));
    v.push(marked!(TM_NTag_UText, ops::<TM_NTag_UText>("TM_NTag_UText")));
    v.push(marked!(T_NTag_UNum, ops::<T_NTag_UNum>("T_NTag_UNum")));
    v.push(marked!(TM_NTag_UNum, ops::<TM_NTag_UNum>("TM_NTag_UNum")));
    v.push(marked!(T_NTag_UStruct, ops::<T_NTag_UStruct>("T_NTag_UStruct")));
    v.push(marked!(TM_NTag_UStruct, ops::<TM_NTag_UStruct>("TM_NTag_UStruct")));
    v.push(marked!(T_NTag_UUnk, ops::<T_NTag_UUnk>("T_NTag_UUnk")));
    v.push(marked!(TM_NTag_UUnk, ops::<TM_NTag_UUnk>("TM_NTag_UUnk")));
    v.push(marked!(T_NTag_Named, ops::<T_NTag_Named>("T_NTag_Named")));
    v.push(marked!(TM_NTag_Named, ops::<TM_NTag_Named>("TM_NTag_Named")));
    v.push(marked!(T_NTag_NNum, ops::<T_NTag_NNum>("T_NTag_NNum")));
    v.push(marked!(TM_NTag_NNum, ops::<TM_NTag_NNum>("TM_NTag_NNum")));
    v.push(marked!(T_NTag_NMix, ops::<T_NTag_NMix>("T_NTag_NMix")));
    v.push(marked!(TM_NTag_NMix, ops::<TM_NTag_NMix>("TM_NTag_NMix")));
    v.push(marked!(T_NTag_N0, ops::<T_NTag_N0>("T_NTag_N0")));
    v.push(marked!(TM_NTag_N0, ops::<TM_NTag_N0>("TM_NTag_N0")));
    v.push(marked!(T_NTag_NUnk, ops::<T_NTag_NUnk>("T_NTag_NUnk")));
    v.push(marked!(TM_NTag_NUnk, ops::<TM_NTag_NUnk>("TM_NTag_NUnk")));
    v.push(marked!(T_NTag_NNM, ops::<T_NTag_NNM>("T_NTag_NNM")));
    v.push(marked!(TM_NTag_NNM, ops::<TM_NTag_NNM>("TM_NTag_NNM")));
    v.push(marked!(T_NTag_NNS, ops::<T_NTag_NNS>("T_NTag_NNS")));
    v.push(marked!(TM_NTag_NNS, ops::<TM_NTag_NNS>("TM_NTag_NNS")));
    v.push(marked!(T_NTag_NMap, ops::<T_NTag_NMap>("T_NTag_NMap")));
    v.push(marked!(TM_NTag_NMap, ops::<TM_NTag_NMap>("TM_NTag_NMap")));
    v.push(marked!(T_NTag_NTag, ops::<T_NTag_NTag>("T_NTag_NTag")));
    v.push(marked!(TM_NTag_NTag, ops::<TM_NTag_NTag>("TM_NTag_NTag")));
    v.push(marked!(T_NTag_NCod, ops::<T_NTag_NCod>("T_NTag_NCod")));
    v.push(marked!(TM_NTag_NCod, ops::<TM_NTag_NCod>("TM_NTag_NCod")));
    v.push(marked!(T_NTag_SUnit, ops::<T_NTag_SUnit>("T_NTag_SUnit")));
    v.push(marked!(T_NTag_SNamed, ops::<T_NTag_SNamed>("T_NTag_SNamed")));
    v.push(marked!(TM_NTag_SNamed, ops::<TM_NTag_SNamed>("TM_NTag_SNamed")));
    v.push(marked!(T_NTag_SStruct, ops::<T_NTag_SStruct>("T_NTag_SStruct")));
    v.push(marked!(T_NTag_SMap, ops::<T_NTag_SMap>("T_NTag_SMap")));
    v.push(marked!(T_NCod, ops::<T_NCod>("T_NCod")));
    v.push(marked!(T_NCod_Unit, ops::<T_NCod_Unit>("T_NCod_Unit")));
    v.push(marked!(TM_NCod_Unit, ops::<TM_NCod_Unit>("TM_NCod_Unit")));
}
fn types32(v: &mut Vec<Ops>) {
    v.push(marked!(T_NCod_UText, ops::<T_NCod_UText>("T_NCod_UText")));
    v.push(marked!(TM_NCod_UText, ops::<TM_NCod_UText>("TM_NCod_UText")));
    v.push(marked!(T_NCod_UNum, ops::<T_NCod_UNum>("T_NCod_UNum")));
    v.push(marked!(TM_NCod_UNum, ops::<TM_NCod_UNum>("TM_NCod_UNum")));
    v.push(marked!(T_NCod_UStruct, ops::<T_NCod_UStruct>("T_NCod_UStruct")));
    v.push(marked!(TM_NCod_UStruct, ops::<TM_NCod_UStruct>("TM_NCod_UStruct")));
    v.push(marked!(T_NCod_UUnk, ops::<T_NCod_UUnk>("T_NCod_UUnk")));
    v.push(marked!(TM_NCod_UUnk, ops::<TM_NCod_UUnk>("TM_NCod_UUnk")));
    v.push(marked!(T_NCod_Named, ops::<T_NCod_Named>("T_NCod_Named")));
    v.push(marked!(TM_NCod_Named, ops::<TM_NCod_Named>("TM_NCod_Named")));
    v.push(marked!(T_NCod_NNum, ops::<T_NCod_NNum>("T_NCod_NNum")));
    v.push(marked!(TM_NCod_NNum, ops::<TM_NCod_NNum>("TM_NCod_NNum")));
    v.push(marked!(T_NCod_NMix, ops::<T_NCod_NMix>("T_NCod_NMix")));
    v.push(marked!(TM_NCod_NMix, ops::<TM_NCod_NMix>("TM_NCod_NMix")));
    v.push(marked!(T_NCod_N0, ops::<T_NCod_N0>("T_NCod_N0")));
    v.push(marked!(TM_NCod_N0, ops::<TM_NCod_N0>("TM_NCod_N0")));
    v.push(marked!(T_NCod_NUnk, ops::<T_NCod_NUnk>("T_NCod_NUnk")));
    v.push(marked!(TM_NCod_NUnk, ops::<TM_NCod_NUnk>("TM_NCod_NUnk")));
    v.push(marked!(T_NCod_NNM, ops::<T_NCod_NNM>("T_NCod_NNM")));
    v.push(marked!(TM_NCod_NNM, ops::<TM_NCod_NNM>("TM_NCod_NNM")));
    v.push(marked!(T_NCod_NNS, ops::<T_NCod_NNS>("T_NCod_NNS")));
    v.push(marked!(TM_NCod_NNS, ops::<TM_NCod_NNS>("TM_NCod_NNS")));
    v.push(marked!(T_NCod_NMap, ops::<T_NCod_NMap>("T_NCod_NMap")));
    v.push(marked!(TM_NCod_NMap, ops::<TM_NCod_NMap>("TM_NCod_NMap")));
    v.push(marked!(T_NCod_NTag, ops::<T_NCod_NTag>("T_NCod_NTag")));
    v.push(marked!(TM_NCod_NTag, ops::<TM_NCod_NTag>("TM_NCod_NTag")));
    v.push(marked!(T_NCod_NCod, ops::<T_NCod_NCod>("T_NCod_NCod")));
    v.push(marked!(TM_NCod_NCod, ops::<TM_NCod_NCod>("TM_NCod_NCod")));
    v.push(marked!(T_NCod_SUnit, ops::<T_NCod_SUnit>("T_NCod_SUnit")));
    v.push(marked!(T_NCod_SNamed, ops::<T_NCod_SNamed>("T_NCod_SNamed")));
    v.push(marked!(TM_NCod_SNamed, ops::<TM_NCod_SNamed>("TM_NCod_SNamed")));
    v.push(marked!(T_NCod_SStruct, ops::<T_NCod_SStruct>("T_NCod_SStruct")));
    v.push(marked!(T_NCod_SMap, ops::<T_NCod_SMap>("T_NCod_SMap")));
    v.push(marked!(T_SUnit, ops::<T_SUnit>("T_SUnit")));
    v.push(marked!(T_SUnit_Unit, ops::<T_SUnit_Unit>("T_SUnit_Unit")));
    v.push(marked!(TM_SUnit_Unit, ops::<TM_SUnit_Unit>("TM_SUnit_Unit")));
    v.push(marked!(T_SUnit_UText, ops::<T_SUnit_UText>("T_SUnit_UText")));
    v.push(marked!(TM_SUnit_UText, ops::<TM_SUnit_UText>("TM_SUnit_UText")));
    v.push(marked!(T_SUnit_UNum, ops::<T_SUnit_UNum>("T_SUnit_UNum")));
    v.push(marked!(TM_SUnit_UNum, ops::<TM_SUnit_UNum>("TM_SUnit_UNum")));
    v.push(marked!(T_SUnit_UStruct, ops::<T_SUnit_UStruct>("T_SUnit_UStruct")));
    v.push(marked!(TM_SUnit_UStruct, ops::<TM_SUnit_UStruct>("TM_SUnit_UStruct")));
    v.push(marked!(T_SUnit_UUnk, ops::<T_SUnit_UUnk>("T_SUnit_UUnk")));
    v.push(marked!(TM_SUnit_UUnk, ops::<TM_SUnit_UUnk>("TM_SUnit_UUnk")));
    v.push(marked!(T_SUnit_Named, ops::<T_SUnit_Named>("T_SUnit_Named")));
    v.push(marked!(TM_SUnit_Named, ops::<TM_SUnit_Named>("TM_SUnit_Named")));
    v.push(marked!(T_SUnit_NNum, ops::<T_SUnit_NNum>("T_SUnit_NNum")));
    v.push(marked!(TM_SUnit_NNum, ops::<TM_SUnit_NNum>("TM_SUnit_NNum")));
    v.push(marked!(T_SUnit_NMix, ops::<T_SUnit_NMix>("T_SUnit_NMix")));
    v.push(marked!(TM_SUnit_NMix, ops::<TM_SUnit_NMix>("TM_SUnit_NMix")));
}
fn types33(v: &mut Vec<Ops>) {
    v.push(marked!(T_SUnit_N0, ops::<T_SUnit_N0>("T_SUnit_N0")));
    v.push(marked!(TM_SUnit_N0, ops::<TM_SUnit_N0>("TM_SUnit_N0")));
    v.push(marked!(T_SUnit_NUnk, ops::<T_SUnit_NUnk>("T_SUnit_NUnk")));
    v.push(marked!(TM_SUnit_NUnk, ops::<TM_SUnit_NUnk>("TM_SUnit_NUnk")));
    v.push(marked!(T_SUnit_NNM, ops::<T_SUnit_NNM>("T_SUnit_NNM")));
    v.push(marked!(TM_SUnit_NNM, ops::<TM_SUnit_NNM>("TM_SUnit_NNM")));
    v.push(marked!(T_SUnit_NNS, ops::<T_SUnit_NNS>("T_SUnit_NNS")));
    v.push(marked!(TM_SUnit_NNS, ops::<TM_SUnit_NNS>("TM_SUnit_NNS")));
    v.push(marked!(T_SUnit_NMap, ops::<T_SUnit_NMap>("T_SUnit_NMap")));
    v.push(marked!(TM_SUnit_NMap, ops::<TM_SUnit_NMap>("TM_SUnit_NMap")));
    v.push(marked!(T_SUnit_NTag, ops::<T_SUnit_NTag>("T_SUnit_NTag")));
    v.push(marked!(TM_SUnit_NTag, ops::<TM_SUnit_NTag>("TM_SUnit_NTag")));
    v.push(marked!(T_SUnit_NCod, ops::<T_SUnit_NCod>("T_SUnit_NCod")));
    v.push(marked!(TM_SUnit_NCod, ops::<TM_SUnit_NCod>("TM_SUnit_NCod")));
    v.push(marked!(T_SUnit_SUnit, ops::<T_SUnit_SUnit>("T_SUnit_SUnit")));
    v.push(marked!(TM_SUnit_SUnit, ops::<TM_SUnit_SUnit>("TM_SUnit_SUnit")));
    v.push(marked!(T_SUnit_SNamed, ops::<T_SUnit_SNamed>("T_SUnit_SNamed")));
    v.push(marked!(T_SUnit_SStruct, ops::<T_SUnit_SStruct>("T_SUnit_SStruct")));
    v.push(marked!(T_SUnit_SMap, ops::<T_SUnit_SMap>("T_SUnit_SMap")));
    v.push(marked!(T_SNamed, ops::<T_SNamed>("T_SNamed")));
    v.push(marked!(T_SNamed_Unit, ops::<T_SNamed_Unit>("T_SNamed_Unit")));
    v.push(marked!(TM_SNamed_Unit, ops::<TM_SNamed_Unit>("TM_SNamed_Unit")));
    v.push(marked!(T_SNamed_UText, ops::<T_SNamed_UText>("T_SNamed_UText")));
    v.push(marked!(TM_SNamed_UText, ops::<TM_SNamed_UText>("TM_SNamed_UText")));
    v.push(marked!(T_SNamed_UNum, ops::<T_SNamed_UNum>("T_SNamed_UNum")));
    v.push(marked!(TM_SNamed_UNum, ops::<TM_SNamed_UNum>("TM_SNamed_UNum")));
    v.push(marked!(T_SNamed_UStruct, ops::<T_SNamed_UStruct>("T_SNamed_UStruct")));
    v.push(marked!(TM_SNamed_UStruct, ops::<TM_SNamed_UStruct>("TM_SNamed_UStruct")));
    v.push(marked!(T_SNamed_UUnk, ops::<T_SNamed_UUnk>("T_SNamed_UUnk")));
    v.push(marked!(TM_SNamed_UUnk, ops::<TM_SNamed_UUnk>("TM_SNamed_UUnk")));
    v.push(marked!(T_SNamed_Named, ops::<T_SNamed_Named>("T_SNamed_Named")));
    v.push(marked!(TM_SNamed_Named, ops::<TM_SNamed_Named>("TM_SNamed_Named")));
    v.push(marked!(T_SNamed_NNum, ops::<T_SNamed_NNum>("T_SNamed_NNum")));
    v.push(marked!(TM_SNamed_NNum, ops::<TM_SNamed_NNum>("TM_SNamed_NNum")));
    v.push(marked!(T_SNamed_NMix, ops::<T_SNamed_NMix>("T_SNamed_NMix")));
    v.push(marked!(TM_SNamed_NMix, ops::<TM_SNamed_NMix>("TM_SNamed_NMix")));
    v.push(marked!(T_SNamed_N0, ops::<T_SNamed_N0>("T_SNamed_N0")));
    v.push(marked!(TM_SNamed_N0, ops::<TM_SNamed_N0>("TM_SNamed_N0")));
    v.push(marked!(T_SNamed_NUnk, ops::<T_SNamed_NUnk>("T_SNamed_NUnk")));
    v.push(marked!(TM_SNamed_NUnk, ops::<TM_SNamed_NUnk>("TM_SNamed_NUnk")));
    v.push(marked!(T_SNamed_NNM, ops::<T_SNamed_NNM>("T_SNamed_NNM")));
    v.push(marked!(TM_SNamed_NNM, ops::<TM_SNamed_NNM>("TM_SNamed_NNM")));
    v.push(marked!(T_SNamed_NNS, ops::<T_SNamed_NNS>("T_SNamed_NNS")));
    v.push(marked!(TM_SNamed_NNS, ops::<TM_SNamed_NNS>("TM_SNamed_NNS")));
    v.push(marked!(T_SNamed_NMap, ops::<T_SNamed_NMap>("T_SNamed_NMap")));
    v.push(marked!(TM_SNamed_NMap, ops::<TM_SNamed_NMap>("TM_SNamed_NMap")));
    v.push(marked!(T_SNamed_NTag, ops::<T_SNamed_NTag>("T_SNamed_NTag")));
    v.push(marked!(TM_SNamed_NTag, ops::<TM_SNamed_NTag>("TM_SNamed_NTag")));
    v.push(marked!(T_SNamed_NCod, ops::<T_SNamed_NCod>("T_SNamed_NCod")));
    v.push(marked!(TM_SNamed_NCod, ops::<TM_SNamed_NCod>("TM_SNamed_NCod")));
}
fn types34(v: &mut Vec<Ops>) {
    v.push(marked!(T_SNamed_SUnit, ops::<T_SNamed_SUnit>("T_SNamed_SUnit")));
    v.push(marked!(T_SNamed_SNamed, ops::<T_SNamed_SNamed>("T_SNamed_SNamed")));
    v.push(marked!(T_SNamed_SStruct, ops::<T_SNamed_SStruct>("T_SNamed_SStruct")));
    v.push(marked!(T_SNamed_SMap, ops::<T_SNamed_SMap>("T_SNamed_SMap")));
    v.push(marked!(TM_SNamed_SMap, ops::<TM_SNamed_SMap>("TM_SNamed_SMap")));
    v.push(marked!(T_SStruct, ops::<T_SStruct>("T_SStruct")));
    v.push(marked!(T_SStruct_Unit, ops::<T_SStruct_Unit>("T_SStruct_Unit")));
    v.push(marked!(TM_SStruct_Unit, ops::<TM_SStruct_Unit>("TM_SStruct_Unit")));
    v.push(marked!(T_SStruct_UText, ops::<T_SStruct_UText>("T_SStruct_UText")));
    v.push(marked!(TM_SStruct_UText, ops::<TM_SStruct_UText>("TM_SStruct_UText")));
    v.push(marked!(T_SStruct_UNum, ops::<T_SStruct_UNum>("T_SStruct_UNum")));
    v.push(marked!(TM_SStruct_UNum, ops::<TM_SStruct_UNum>("TM_SStruct_UNum")));
    v.push(marked!(T_SStruct_UStruct, ops::<T_SStruct_UStruct>("T_SStruct_UStruct")));
    v.push(marked!(TM_SStruct_UStruct, ops::<TM_SStruct_UStruct>("TM_SStruct_UStruct")));
    v.push(marked!(T_SStruct_UUnk, ops::<T_SStruct_UUnk>("T_SStruct_UUnk")));
    v.push(marked!(TM_SStruct_UUnk, ops::<TM_SStruct_UUnk>("TM_SStruct_UUnk")));
    v.push(marked!(T_SStruct_Named, ops::<T_SStruct_Named>("T_SStruct_Named")));
    v.push(marked!(TM_SStruct_Named, ops::<TM_SStruct_Named>("TM_SStruct_Named")));
    v.push(marked!(T_SStruct_NNum, ops::<T_SStruct_NNum>("T_SStruct_NNum")));
    v.push(marked!(TM_SStruct_NNum, ops::<TM_SStruct_NNum>("TM_SStruct_NNum")));
    v.push(marked!(T_SStruct_NMix, ops::<T_SStruct_NMix>("T_SStruct_NMix")));
    v.push(marked!(TM_SStruct_NMix, ops::<TM_SStruct_NMix>("TM_SStruct_NMix")));
    v.push(marked!(T_SStruct_N0, ops::<T_SStruct_N0>("T_SStruct_N0")));
    v.push(marked!(TM_SStruct_N0, ops::<TM_SStruct_N0>("TM_SStruct_N0")));
    v.push(marked!(T_SStruct_NUnk, ops::<T_SStruct_NUnk>("T_SStruct_NUnk")));
    v.push(marked!(TM_SStruct_NUnk, ops::<TM_SStruct_NUnk>("TM_SStruct_NUnk")));
    v.push(marked!(T_SStruct_NNM, ops::<T_SStruct_NNM>("T_SStruct_NNM")));
    v.push(marked!(TM_SStruct_NNM, ops::<TM_SStruct_NNM>("TM_SStruct_NNM")));
    v.push(marked!(T_SStruct_NNS, ops::<T_SStruct_NNS>("T_SStruct_NNS")));
    v.push(marked!(TM_SStruct_NNS, ops::<TM_SStruct_NNS>("TM_SStruct_NNS")));
    v.push(marked!(T_SStruct_NMap, ops::<T_SStruct_NMap>("T_SStruct_NMap")));
    v.push(marked!(TM_SStruct_NMap, ops::<TM_SStruct_NMap>("TM_SStruct_NMap")));
    v.push(marked!(T_SStruct_NTag, ops::<T_SStruct_NTag>("T_SStruct_NTag")));
    v.push(marked!(TM_SStruct_NTag, ops::<TM_SStruct_NTag>("TM_SStruct_NTag")));
    v.push(marked!(T_SStruct_NCod, ops::<T_SStruct_NCod>("T_SStruct_NCod")));
    v.push(marked!(TM_SStruct_NCod, ops::<TM_SStruct_NCod>("TM_SStruct_NCod")));
    v.push(marked!(T_SStruct_SUnit, ops::<T_SStruct_SUnit>("T_SStruct_SUnit")));
    v.push(marked!(T_SStruct_SNamed, ops::<T_SStruct_SNamed>("T_SStruct_SNamed")));
    v.push(marked!(T_SStruct_SStruct, ops::<T_SStruct_SStruct>("T_SStruct_SStruct")));
    v.push(marked!(TM_SStruct_SStruct, ops::<TM_SStruct_SStruct>("TM_SStruct_SStruct")));
    v.push(marked!(T_SStruct_SMap, ops::<T_SStruct_SMap>("T_SStruct_SMap")));
    v.push(marked!(T_SMap, ops::<T_SMap>("T_SMap")));
    v.push(marked!(T_SMap_Unit, ops::<T_SMap_Unit>("T_SMap_Unit")));
    v.push(marked!(TM_SMap_Unit, ops::<TM_SMap_Unit>("TM_SMap_Unit")));
    v.push(marked!(T_SMap_UText, ops::<T_SMap_UText>("T_SMap_UText")));
    v.push(marked!(TM_SMap_UText, ops::<TM_SMap_UText>("TM_SMap_UText")));
    v.push(marked!(T_SMap_UNum, ops::<T_SMap_UNum>("T_SMap_UNum")));
    v.push(marked!(TM_SMap_UNum, ops::<TM_SMap_UNum>("TM_SMap_UNum")));
    v.push(marked!(T_SMap_UStruct, ops::<T_SMap_UStruct>("T_SMap_UStruct")));
    v.push(marked!(TM_SMap_UStruct, ops::<TM_SMap_UStruct>("TM_SMap_UStruct")));
}
fn types35(v: &mut Vec<Ops>) {
    v.push(marked!(T_SMap_UUnk, ops::<T_SMap_UUnk>("T_SMap_UUnk")));
    v.push(marked!(TM_SMap_UUnk, ops::<TM_SMap_UUnk>("TM_SMap_UUnk")));
    v.push(marked!(T_SMap_Named, ops::<T_SMap_Named>("T_SMap_Named")));
    v.push(marked!(TM_SMap_Named, ops::<TM_SMap_Named>("TM_SMap_Named")));
    v.push(marked!(T_SMap_NNum, ops::<T_SMap_NNum>("T_SMap_NNum")));
    v.push(marked!(TM_SMap_NNum, ops::<TM_SMap_NNum>("TM_SMap_NNum")));
    v.push(marked!(T_SMap_NMix, ops::<T_SMap_NMix>("T_SMap_NMix")));
    v.push(marked!(TM_SMap_NMix, ops::<TM_SMap_NMix>("TM_SMap_NMix")));
    v.push(marked!(T_SMap_N0, ops::<T_SMap_N0>("T_SMap_N0")));
    v.push(marked!(TM_SMap_N0, ops::<TM_SMap_N0>("TM_SMap_N0")));
    v.push(marked!(T_SMap_NUnk, ops::<T_SMap_NUnk>("T_SMap_NUnk")));
    v.push(marked!(TM_SMap_NUnk, ops::<TM_SMap_NUnk>("TM_SMap_NUnk")));
    v.push(marked!(T_SMap_NNM, ops::<T_SMap_NNM>("T_SMap_NNM")));
    v.push(marked!(TM_SMap_NNM, ops::<TM_SMap_NNM>("TM_SMap_NNM")));
    v.push(marked!(T_SMap_NNS, ops::<T_SMap_NNS>("T_SMap_NNS")));
    v.push(marked!(TM_SMap_NNS, ops::<TM_SMap_NNS>("TM_SMap_NNS")));
    v.push(marked!(T_SMap_NMap, ops::<T_SMap_NMap>("T_SMap_NMap")));
    v.push(marked!(TM_SMap_NMap, ops::<TM_SMap_NMap>("TM_SMap_NMap")));
    v.push(marked!(T_SMap_NTag, ops::<T_SMap_NTag>("T_SMap_NTag")));
    v.push(marked!(TM_SMap_NTag, ops::<TM_SMap_NTag>("TM_SMap_NTag")));
    v.push(marked!(T_SMap_NCod, ops::<T_SMap_NCod>("T_SMap_NCod")));
    v.push(marked!(TM_SMap_NCod, ops::<TM_SMap_NCod>("TM_SMap_NCod")));
    v.push(marked!(T_SMap_SUnit, ops::<T_SMap_SUnit>("T_SMap_SUnit")));
    v.push(marked!(T_SMap_SNamed, ops::<T_SMap_SNamed>("T_SMap_SNamed")));
    v.push(marked!(TM_SMap_SNamed, ops::<TM_SMap_SNamed>("TM_SMap_SNamed")));
    v.push(marked!(T_SMap_SStruct, ops::<T_SMap_SStruct>("T_SMap_SStruct")));
    v.push(marked!(T_SMap_SMap, ops::<T_SMap_SMap>("T_SMap_SMap")));
    v.push(marked!(T3_0_v, ops::<T3_0_v>("T3_0_v")));
    v.push(marked!(T3M_0_v, ops::<T3M_0_v>("T3M_0_v")));
    v.push(marked!(T3_0_Num, ops::<T3_0_Num>("T3_0_Num")));
    v.push(marked!(T3M_0_Num, ops::<T3M_0_Num>("T3M_0_Num")));
    v.push(marked!(T3_0_Emp, ops::<T3_0_Emp>("T3_0_Emp")));
    v.push(marked!(T3M_0_Emp, ops::<T3M_0_Emp>("T3M_0_Emp")));
    v.push(marked!(T3_0_Long, ops::<T3_0_Long>("T3_0_Long")));
    v.push(marked!(T3M_0_Long, ops::<T3M_0_Long>("T3M_0_Long")));
    v.push(marked!(T3_0_AB, ops::<T3_0_AB>("T3_0_AB")));
    v.push(marked!(T3M_0_AB, ops::<T3M_0_AB>("T3M_0_AB")));
    v.push(marked!(T3_1_v, ops::<T3_1_v>("T3_1_v")));
    v.push(marked!(T3M_1_v, ops::<T3M_1_v>("T3M_1_v")));
    v.push(marked!(T3_1_Num, ops::<T3_1_Num>("T3_1_Num")));
    v.push(marked!(T3M_1_Num, ops::<T3M_1_Num>("T3M_1_Num")));
    v.push(marked!(T3_1_Emp, ops::<T3_1_Emp>("T3_1_Emp")));
    v.push(marked!(T3M_1_Emp, ops::<T3M_1_Emp>("T3M_1_Emp")));
    v.push(marked!(T3_1_Long, ops::<T3_1_Long>("T3_1_Long")));
    v.push(marked!(T3M_1_Long, ops::<T3M_1_Long>("T3M_1_Long")));
    v.push(marked!(T3_1_AB, ops::<T3_1_AB>("T3_1_AB")));
    v.push(marked!(T3M_1_AB, ops::<T3M_1_AB>("T3M_1_AB")));
    v.push(marked!(T3_2_v, ops::<T3_2_v>("T3_2_v")));
    v.push(marked!(T3M_2_v, ops::<T3M_2_v>("T3M_2_v")));
    v.push(marked!(T3_2_Num, ops::<T3_2_Num>("T3_2_Num")));
}
fn types36(v: &mut Vec<Ops>) {
    v.push(marked!(T3M_2_Num, ops::<T3M_2_Num>("T3M_2_Num")));
    v.push(marked!(T3_2_Emp, ops::<T3_2_Emp>("T3_2_Emp")));
    v.push(marked!(T3M_2_Emp, ops::<T3M_2_Emp>("T3M_2_Emp")));
    v.push(marked!(T3_2_Long, ops::<T3_2_Long>("T3_2_Long")));
    v.push(marked!(T3M_2_Long, ops::<T3M_2_Long>("T3M_2_Long")));
    v.push(marked!(T3_2_AB, ops::<T3_2_AB>("T3_2_AB")));
    v.push(marked!(T3M_2_AB, ops::<T3M_2_AB>("T3M_2_AB")));
    v.push(marked!(T3_3_v, ops::<T3_3_v>("T3_3_v")));
    v.push(marked!(T3M_3_v, ops::<T3M_3_v>("T3M_3_v")));
    v.push(marked!(T3_3_Num, ops::<T3_3_Num>("T3_3_Num")));
    v.push(marked!(T3M_3_Num, ops::<T3M_3_Num>("T3M_3_Num")));
    v.push(marked!(T3_3_Emp, ops::<T3_3_Emp>("T3_3_Emp")));
    v.push(marked!(T3M_3_Emp, ops::<T3M_3_Emp>("T3M_3_Emp")));
    v.push(marked!(T3_3_Long, ops::<T3_3_Long>("T3_3_Long")));
    v.push(marked!(T3M_3_Long, ops::<T3M_3_Long>("T3M_3_Long")));
    v.push(marked!(T3_3_AB, ops::<T3_3_AB>("T3_3_AB")));
    v.push(marked!(T3M_3_AB, ops::<T3M_3_AB>("T3M_3_AB")));
    v.push(marked!(T3_4_v, ops::<T3_4_v>("T3_4_v")));
    v.push(marked!(T3M_4_v, ops::<T3M_4_v>("T3M_4_v")));
    v.push(marked!(T3_4_Num, ops::<T3_4_Num>("T3_4_Num")));
    v.push(marked!(T3M_4_Num, ops::<T3M_4_Num>("T3M_4_Num")));
    v.push(marked!(T3_4_Emp, ops::<T3_4_Emp>("T3_4_Emp")));
    v.push(marked!(T3M_4_Emp, ops::<T3M_4_Emp>("T3M_4_Emp")));
    v.push(marked!(T3_4_Long, ops::<T3_4_Long>("T3_4_Long")));
    v.push(marked!(T3M_4_Long, ops::<T3M_4_Long>("T3M_4_Long")));
    v.push(marked!(T3_4_AB, ops::<T3_4_AB>("T3_4_AB")));
    v.push(marked!(T3M_4_AB, ops::<T3M_4_AB>("T3M_4_AB")));
    v.push(marked!(T3_5_v, ops::<T3_5_v>("T3_5_v")));
    v.push(marked!(T3M_5_v, ops::<T3M_5_v>("T3M_5_v")));
    v.push(marked!(T3_5_Num, ops::<T3_5_Num>("T3_5_Num")));
    v.push(marked!(T3M_5_Num, ops::<T3M_5_Num>("T3M_5_Num")));
    v.push(marked!(T3_5_Emp, ops::<T3_5_Emp>("T3_5_Emp")));
    v.push(marked!(T3M_5_Emp, ops::<T3M_5_Emp>("T3M_5_Emp")));
    v.push(marked!(T3_5_Long, ops::<T3_5_Long>("T3_5_Long")));
    v.push(marked!(T3M_5_Long, ops::<T3M_5_Long>("T3M_5_Long")));
    v.push(marked!(T3_5_AB, ops::<T3_5_AB>("T3_5_AB")));
    v.push(marked!(T3M_5_AB, ops::<T3M_5_AB>("T3M_5_AB")));
    v.push(marked!(T3_6_v, ops::<T3_6_v>("T3_6_v")));
    v.push(marked!(T3M_6_v, ops::<T3M_6_v>("T3M_6_v")));
    v.push(marked!(T3_6_Num, ops::<T3_6_Num>("T3_6_Num")));
    v.push(marked!(T3M_6_Num, ops::<T3M_6_Num>("T3M_6_Num")));
    v.push(marked!(T3_6_Emp, ops::<T3_6_Emp>("T3_6_Emp")));
    v.push(marked!(T3M_6_Emp, ops::<T3M_6_Emp>("T3M_6_Emp")));
    v.push(marked!(T3_6_Long, ops::<T3_6_Long>("T3_6_Long")));
    v.push(marked!(T3M_6_Long, ops::<T3M_6_Long>("T3M_6_Long")));
    v.push(marked!(T3_6_AB, ops::<T3_6_AB>("T3_6_AB")));
    v.push(marked!(T3M_6_AB, ops::<T3M_6_AB>("T3M_6_AB")));
    v.push(marked!(HoldT, ops::<HoldT>("HoldT")));
    v.push(marked!(Un_Unit, enc_ops::<Un_Unit>("Un_Unit")));
    v.push(marked!(Un_Unit_2, enc_ops::<Un_Unit_2>("Un_Unit_2")));
}
fn types37(v: &mut Vec<Ops>) {
    v.push(marked!(Un_UText, enc_ops::<Un_UText>("Un_UText")));
    v.push(marked!(Un_UText_2, enc_ops::<Un_UText_2>("Un_UText_2")));
    v.push(marked!(Un_UNum, enc_ops::<Un_UNum>("Un_UNum")));
    v.push(marked!(Un_UNum_2, enc_ops::<Un_UNum_2>("Un_UNum_2")));
    v.push(marked!(Un_UDisc, enc_ops::<Un_UDisc>("Un_UDisc")));
    v.push(marked!(Un_UDisc_2, enc_ops::<Un_UDisc_2>("Un_UDisc_2")));
    v.push(marked!(Un_UExpr, enc_ops::<Un_UExpr>("Un_UExpr")));
    v.push(marked!(Un_UExpr_2, enc_ops::<Un_UExpr_2>("Un_UExpr_2")));
    v.push(marked!(Un_UStruct, enc_ops::<Un_UStruct>("Un_UStruct")));
    v.push(marked!(Un_UStruct_2, enc_ops::<Un_UStruct_2>("Un_UStruct_2")));
    v.push(marked!(Un_NU8, enc_ops::<Un_NU8>("Un_NU8")));
    v.push(marked!(Un_NU8_2, enc_ops::<Un_NU8_2>("Un_NU8_2")));
    v.push(marked!(Un_NStr, enc_ops::<Un_NStr>("Un_NStr")));
    v.push(marked!(Un_NStr_2, enc_ops::<Un_NStr_2>("Un_NStr_2")));
    v.push(marked!(Un_NOpt, enc_ops::<Un_NOpt>("Un_NOpt")));
    v.push(marked!(Un_NOpt_2, enc_ops::<Un_NOpt_2>("Un_NOpt_2")));
    v.push(marked!(Un_NNS, enc_ops::<Un_NNS>("Un_NNS")));
    v.push(marked!(Un_NNS_2, enc_ops::<Un_NNS_2>("Un_NNS_2")));
    v.push(marked!(Un_NVec, enc_ops::<Un_NVec>("Un_NVec")));
    v.push(marked!(Un_NVec_2, enc_ops::<Un_NVec_2>("Un_NVec_2")));
    v.push(marked!(Un_Tup, enc_ops::<Un_Tup>("Un_Tup")));
    v.push(marked!(Un_Tup_2, enc_ops::<Un_Tup_2>("Un_Tup_2")));
    v.push(marked!(Un_TSkip, enc_ops::<Un_TSkip>("Un_TSkip")));
    v.push(marked!(Un_TSkip_2, enc_ops::<Un_TSkip_2>("Un_TSkip_2")));
    v.push(marked!(Un_T0, enc_ops::<Un_T0>("Un_T0")));
    v.push(marked!(Un_T0_2, enc_ops::<Un_T0_2>("Un_T0_2")));
    v.push(marked!(Un_Named, enc_ops::<Un_Named>("Un_Named")));
    v.push(marked!(Un_Named_2, enc_ops::<Un_Named_2>("Un_Named_2")));
    v.push(marked!(Un_NMix, enc_ops::<Un_NMix>("Un_NMix")));
    v.push(marked!(Un_NMix_2, enc_ops::<Un_NMix_2>("Un_NMix_2")));
    v.push(marked!(Un_N0, enc_ops::<Un_N0>("Un_N0")));
    v.push(marked!(Un_N0_2, enc_ops::<Un_N0_2>("Un_N0_2")));
    v.push(marked!(Un_NArr, enc_ops::<Un_NArr>("Un_NArr")));
    v.push(marked!(Un_NArr_2, enc_ops::<Un_NArr_2>("Un_NArr_2")));
    v.push(marked!(Un_NUnk, enc_ops::<Un_NUnk>("Un_NUnk")));
    v.push(marked!(Un_NUnk_2, enc_ops::<Un_NUnk_2>("Un_NUnk_2")));
    v.push(marked!(Un_EmA, enc_ops::<Un_EmA>("Un_EmA")));
    v.push(marked!(Un_EmA_2, enc_ops::<Un_EmA_2>("Un_EmA_2")));
    v.push(marked!(Un_EmB, enc_ops::<Un_EmB>("Un_EmB")));
    v.push(marked!(Un_EmB_2, enc_ops::<Un_EmB_2>("Un_EmB_2")));
    v.push(marked!(Un_NEN, enc_ops::<Un_NEN>("Un_NEN")));
    v.push(marked!(Un_NEN_2, enc_ops::<Un_NEN_2>("Un_NEN_2")));
    v.push(marked!(Un_mix, enc_ops::<Un_mix>("Un_mix")));
    v.push(marked!(Outer, ops::<Outer>("Outer")));
    v.push(marked!(Hold, ops::<Hold>("Hold")));
    v.push(marked!(Vec<EA>, ops::<Vec<EA>>("Vec<EA>")));
    v.push(marked!(Option<EB>, ops::<Option<EB>>("Option<EB>")));
    v.push(marked!(BTreeMap<String, EX>, ops::<BTreeMap<String, EX>>("BTreeMap<String, EX>")));
    v.push(marked!((EA, EN), ops::<(EA, EN)>("(EA, EN)")));
    v.push(marked!(Vec<Option<EA>>, ops::<Vec<Option<EA>>>("Vec<Option<EA>>")));
}
fn types38(v: &mut Vec<Ops>) {
    v.push(marked!(Vec<E3_5_0>, ops::<Vec<E3_5_0>>("Vec<E3_5_0>")));
    v.push(marked!(Vec<OverOpt>, ops::<Vec<OverOpt>>("Vec<OverOpt>")));
    v.push(marked!(GN<0>, ops::<GN<0>>("GN<0>")));
    v.push(marked!(GN<2>, ops::<GN<2>>("GN<2>")));
    v.push(marked!(GN<24>, ops::<GN<24>>("GN<24>")));
    v.push(marked!(GD<String, GN<1>>, ops::<GD<String, GN<1>>>("GD<String, GN<1>>")));
    v.push(marked!(GD<EN>, ops::<GD<EN>>("GD<EN>")));
    v.push(marked!(GM<std::fs::File, 0>, ops::<GM<std::fs::File, 0>>("GM<std::fs::File, 0>")));
    v.push(marked!(GM<u8, 2>, ops::<GM<u8, 2>>("GM<u8, 2>")));
    v.push(marked!(LE<'static>, enc_ops::<LE<'static>>("LE<'static>")));
    v.push(marked!(LG<'static>, enc_ops::<LG<'static>>("LG<'static>")));
    v.push(marked!(LU<'static>, enc_ops::<LU<'static>>("LU<'static>")));
    v.push(marked!(ER1, ops::<ER1>("ER1")));
    v.push(marked!(ER2, ops::<ER2>("ER2")));
    v.push(marked!(ER3, ops::<ER3>("ER3")));
    v.push(marked!(ER4, enc_ops::<ER4>("ER4")));
    v.push(marked!(ER5, ops::<ER5>("ER5")));
    v.push(marked!(ER6, ops::<ER6>("ER6")));
    v.push(marked!(ER7, ops::<ER7>("ER7")));
    v.push(marked!(GE<u8>, ops::<GE<u8>>("GE<u8>")));
    v.push(marked!(GE<NS>, ops::<GE<NS>>("GE<NS>")));
    v.push(marked!(GE<EA>, ops::<GE<EA>>("GE<EA>")));
    v.push(marked!(GT<Option<u8>>, ops::<GT<Option<u8>>>("GT<Option<u8>>")));
    v.push(marked!(GT<GE<i16>>, ops::<GT<GE<i16>>>("GT<GE<i16>>")));
}
