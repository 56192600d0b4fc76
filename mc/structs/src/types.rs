// Written by tools/gen_derive.py. Do not edit.
#![allow(clippy::all, unused, dead_code, non_camel_case_types)]
use std::collections::*;
use std::sync::Arc;

use mccore::model::*;
use oasis_cbor::{Decode, Encode, Value};
use mctyped::marked;
use oasis_cbor::DecodeError;
use mctyped::schema::*;
use mctyped::subj::*;

pub fn ser_num(x: &u16) -> String {
    x.to_string()
}
pub fn de_num(s: String) -> Result<u16, DecodeError> {
    s.parse().map_err(|_| DecodeError::UnexpectedIntegerSize)
}
fn to_num(d: &D) -> R {
    match d {
        D::Str(s) => match s.parse::<u16>() {
            Ok(n) => R::Ok(D::Int(n as i128)),
            Err(_) => R::Err(SIZE),
        },
        _ => panic!(),
    }
}
pub fn num() -> Codec {
    Codec { wire: Ty::Str, enc: |d| D::Str(d_int(d).to_string()), dec: to_num }
}
pub fn ser_pos(x: &u16) -> Option<String> {
    if *x == 0 { None } else { Some(x.to_string()) }
}
pub fn de_pos(s: Option<String>) -> Result<u16, DecodeError> {
    s.map_or(Ok(0), de_num)
}
/// Zero as nothing.
pub fn pos() -> Codec {
    Codec {
        wire: Ty::Opt(Arc::new(Ty::Str)),
        enc: |d| if d_int(d) == 0 { D::None } else { D::Some(Box::new(D::Str(d_int(d).to_string()))) },
        dec: |d| match d {
            D::Some(d) => to_num(d),
            _ => R::Ok(D::Int(0)),
        },
    }
}
pub fn ser_clamp(x: &u8) -> u8 {
    (*x).min(100)
}
pub fn clamp() -> Codec {
    Codec { wire: Ty::Uint(8), enc: |d| D::Int(d_int(d).min(100)), dec: |d| R::Ok(d.clone()) }
}
pub fn de_inc(x: u8) -> Result<u8, DecodeError> {
    x.checked_add(1).ok_or(DecodeError::UnexpectedIntegerSize)
}
pub fn inc() -> Codec {
    Codec { wire: Ty::Uint(8), enc: |d| d.clone(), dec: |d| if d_int(d) < 255 { R::Ok(D::Int(d_int(d) + 1)) } else { R::Err(SIZE) } }
}
/// Without a default to start from.
pub fn ser_wrap(x: &Vec<u8>) -> EN {
    match x.len() {
        0 => EN::Nil,
        n => EN::Num(n as i32),
    }
}
pub fn de_wrap(e: EN) -> Result<Vec<u8>, DecodeError> {
    match e {
        EN::Nil => Ok(vec![]),
        EN::Num(n) if n > 0 && n < 300 => Ok(vec![1; n as usize]),
        _ => Err(DecodeError::UnexpectedType),
    }
}
pub fn wrap() -> Codec {
    Codec {
        wire: EN::ty(),
        enc: |d| match d {
            D::Bytes(b) if b.is_empty() => D::Var(0, vec![]),
            D::Bytes(b) => D::Var(1, vec![D::Int(b.len() as i128)]),
            _ => panic!(),
        },
        dec: |d| match d {
            D::Var(0, _) => R::Ok(D::Bytes(vec![])),
            D::Var(1, v) if d_int(&v[0]) > 0 && d_int(&v[0]) < 300 => R::Ok(D::Bytes(vec![1; d_int(&v[0]) as usize])),
            _ => R::Err(TYPE),
        },
    }
}
/// Under a name of its own.
pub fn ser_under(x: &u8) -> BTreeMap<String, u8> {
    [("under".to_string(), *x)].into_iter().collect()
}
pub fn de_under(m: BTreeMap<String, u8>) -> Result<u8, DecodeError> {
    match m.get("under") {
        Some(x) if m.len() == 1 => Ok(*x),
        _ => Err(DecodeError::MissingField),
    }
}
pub fn under() -> Codec {
    Codec {
        wire: Ty::Map(Arc::new(Ty::Str), Arc::new(Ty::Uint(8))),
        enc: |d| D::Map(vec![(D::Str("under".into()), d.clone())]),
        dec: |d| match d {
            D::Map(m) if m.len() == 1 && m[0].0 == D::Str("under".into()) => R::Ok(m[0].1.clone()),
            _ => R::Err(MISSING),
        },
    }
}
pub fn is_seven(x: &u8) -> bool {
    *x == 7
}
fn d_int(d: &D) -> i128 {
    match d {
        D::Int(n) => *n,
        _ => panic!(),
    }
}
#[derive(Encode, Decode)]
pub enum EN {
    Nil,
    Num(i32),
    Zz,
}
impl Subj for EN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Nil"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Num"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i32 as Subj>::ty())] },
            VariantTy { key: t("Zz"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EN::Nil => D::Var(0, vec![]),
            EN::Num(x0) => D::Var(1, vec![x0.to_d()]),
            EN::Zz => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EN::Nil,
            1 => EN::Num(Subj::from_d(&v[0])),
            2 => EN::Zz,
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EN {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub struct NS { #[cbor(optional)] pub q: u8, #[cbor(optional)] pub p: Option<String> }
impl Subj for NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <u8 as Subj>::ty()).opt(), fld(t("p"), <Option<String> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NS { q: x0, p: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NS { q: Subj::from_d(&v[0]), p: Subj::from_d(&v[1]) }
    }
}
impl Default for NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct NM { pub p: u8, pub k: String }
impl Subj for NM {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("p"), <u8 as Subj>::ty()), fld(t("k"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NM".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NM { p: x0, k: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NM { p: Subj::from_d(&v[0]), k: Subj::from_d(&v[1]) }
    }
}
impl Default for NM {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct TW(pub Option<u8>);
impl Subj for TW {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TW".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TW(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TW(Subj::from_d(&v[0]))
    }
}
impl Default for TW {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct UN;
impl Subj for UN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "UN".into(), shape: Shape::Unit, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let UN = self;
        D::Seq(vec![])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        UN
    }
}
impl Default for UN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AR { pub x: u8, pub y: bool }
impl Subj for AR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("x"), <u8 as Subj>::ty()), fld(t("y"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AR".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AR { x: x0, y: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AR { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) }
    }
}
impl Default for AR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct ND { pub x: u8 }
impl Subj for ND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("x"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "ND".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let ND { x: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        ND { x: Subj::from_d(&v[0]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum ED {
    First,
    Second(u8),
    #[cbor(rename = 3)] Third,
}
impl Subj for ED {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ED".into(), tag: None, untagged: false, default: Some(D::Var(2, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("First"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Second"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: M::U(3), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ED::First => D::Var(0, vec![]),
            ED::Second(x0) => D::Var(1, vec![x0.to_d()]),
            ED::Third => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ED::First,
            1 => ED::Second(Subj::from_d(&v[0])),
            2 => ED::Third,
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for ED {
    fn default() -> Self {
        Self::from_d(&D::Var(2, vec![]))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8 { pub a: u8 }
impl Subj for S_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_u8 { pub a: u8 }
impl Subj for L_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_u8 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_u8 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_u8 { pub a: u8 }
impl Subj for Y_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_u8".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_u8 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_u8 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_u8(pub u8);
impl Subj for T_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_u8".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_u8(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_u8(Subj::from_d(&v[0]))
    }
}
impl Default for T_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_u8 { pub a: u8, pub b: bool }
impl Subj for YU_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_u8".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_u8 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_u8 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str { pub a: String }
impl Subj for S_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Str { pub a: String }
impl Subj for L_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Str { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Str { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Str { pub a: String }
impl Subj for Y_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Str".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Str { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Str { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Str(pub String);
impl Subj for T_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Str".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Str(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Str(Subj::from_d(&v[0]))
    }
}
impl Default for T_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_Str { pub a: String, pub b: bool }
impl Subj for YU_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <String as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_Str".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_Str { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_Str { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt { pub a: Option<u16> }
impl Subj for S_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Opt { pub a: Option<u16> }
impl Subj for L_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Opt { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Opt { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Opt { pub a: Option<u16> }
impl Subj for Y_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Opt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Opt { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Opt { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Opt(pub Option<u16>);
impl Subj for T_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Opt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Opt(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Opt(Subj::from_d(&v[0]))
    }
}
impl Default for T_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_Opt { pub a: Option<u16>, pub b: bool }
impl Subj for YU_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<u16> as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_Opt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_Opt { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_Opt { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt { #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OOpt { #[cbor(optional)] pub a: Option<u8> }
impl Subj for L_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OOpt { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OOpt { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OOpt { #[cbor(optional)] pub a: Option<u8> }
impl Subj for Y_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OOpt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OOpt { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OOpt { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OOpt(#[cbor(optional)] pub Option<u8>);
impl Subj for T_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OOpt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OOpt(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OOpt(Subj::from_d(&v[0]))
    }
}
impl Default for T_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OOpt { #[cbor(optional)] pub a: Option<u8>, pub b: bool }
impl Subj for YU_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<u8> as Subj>::ty()).opt(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OOpt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OOpt { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OOpt { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum { #[cbor(optional)] pub a: u64 }
impl Subj for S_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONum { #[cbor(optional)] pub a: u64 }
impl Subj for L_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONum { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONum { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONum { #[cbor(optional)] pub a: u64 }
impl Subj for Y_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONum { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONum { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONum(#[cbor(optional)] pub u64);
impl Subj for T_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONum".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONum(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONum(Subj::from_d(&v[0]))
    }
}
impl Default for T_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_ONum { #[cbor(optional)] pub a: u64, pub b: bool }
impl Subj for YU_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u64 as Subj>::ty()).opt(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_ONum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_ONum { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_ONum { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OVec { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for L_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OVec { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OVec { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip { #[cbor(skip)] pub a: u32 }
impl Subj for S_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Skip { #[cbor(skip)] pub a: u32 }
impl Subj for L_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Skip { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Skip { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Skip { #[cbor(skip)] pub a: u32 }
impl Subj for Y_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Skip".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Skip { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Skip { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Skip(#[cbor(skip)] pub u32);
impl Subj for T_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Skip".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Skip(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Skip(Subj::from_d(&v[0]))
    }
}
impl Default for T_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_Skip { #[cbor(skip)] pub a: u32, pub b: bool }
impl Subj for YU_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u32 as Subj>::ty()).skipped(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_Skip".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_Skip { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_Skip { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText { #[cbor(rename = "q")] pub a: i8 }
impl Subj for S_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RText { #[cbor(rename = "q")] pub a: i8 }
impl Subj for L_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RText { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RText { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RText { #[cbor(rename = "q")] pub a: i8 }
impl Subj for Y_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RText".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RText { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RText { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RText(#[cbor(rename = "q")] pub i8);
impl Subj for T_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RText".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RText(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RText(Subj::from_d(&v[0]))
    }
}
impl Default for T_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_RText { #[cbor(rename = "q")] pub a: i8, pub b: bool }
impl Subj for YU_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_RText".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_RText { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_RText { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum { #[cbor(rename = 7)] pub a: i16 }
impl Subj for S_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RNum { #[cbor(rename = 7)] pub a: i16 }
impl Subj for L_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RNum { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RNum { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RNum { #[cbor(rename = 7)] pub a: i16 }
impl Subj for Y_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RNum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RNum { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RNum { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RNum(#[cbor(rename = 7)] pub i16);
impl Subj for T_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RNum".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RNum(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RNum(Subj::from_d(&v[0]))
    }
}
impl Default for T_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_RNum { #[cbor(rename = 7)] pub a: i16, pub b: bool }
impl Subj for YU_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_RNum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_RNum { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_RNum { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong { #[cbor(rename = "a_field_name_of_at_leas")] pub a: bool }
impl Subj for S_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RLong { #[cbor(rename = "a_field_name_of_at_leas")] pub a: bool }
impl Subj for L_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RLong { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RLong { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RLong { #[cbor(rename = "a_field_name_of_at_leas")] pub a: bool }
impl Subj for Y_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RLong".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RLong { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RLong { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RLong(#[cbor(rename = "a_field_name_of_at_leas")] pub bool);
impl Subj for T_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RLong".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RLong(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RLong(Subj::from_d(&v[0]))
    }
}
impl Default for T_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_RLong { #[cbor(rename = "a_field_name_of_at_leas")] pub a: bool, pub b: bool }
impl Subj for YU_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_RLong".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_RLong { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_RLong { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_With { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for L_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_With { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_With { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_With { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for Y_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_With".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_With { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_With { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_With(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16);
impl Subj for T_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_With".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_With(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_With(Subj::from_d(&v[0]))
    }
}
impl Default for T_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_With { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16, pub b: bool }
impl Subj for YU_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u16 as Subj>::ty()).coded(num()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_With".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_With { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_With { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OWith { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for L_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OWith { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OWith { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OWith { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for Y_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OWith".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OWith { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OWith { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OWith(#[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16);
impl Subj for T_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OWith".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OWith(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OWith(Subj::from_d(&v[0]))
    }
}
impl Default for T_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OWith { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16, pub b: bool }
impl Subj for YU_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OWith".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OWith { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OWith { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser { #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Ser { #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for L_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Ser { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Ser { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Ser { #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for Y_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Ser".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Ser { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Ser { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Ser(#[cbor(serialize_with = "ser_clamp")] pub u8);
impl Subj for T_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Ser".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Ser(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Ser(Subj::from_d(&v[0]))
    }
}
impl Default for T_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_Ser { #[cbor(serialize_with = "ser_clamp")] pub a: u8, pub b: bool }
impl Subj for YU_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(clamp()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_Ser".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_Ser { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_Ser { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De { #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_De { #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for L_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_De { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_De { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_De { #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for Y_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_De".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_De { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_De { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_De(#[cbor(deserialize_with = "de_inc")] pub u8);
impl Subj for T_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_De".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_De(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_De(Subj::from_d(&v[0]))
    }
}
impl Default for T_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_De { #[cbor(deserialize_with = "de_inc")] pub a: u8, pub b: bool }
impl Subj for YU_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(inc()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_De".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_De { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_De { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val { pub a: Value }
impl Subj for S_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Val { pub a: Value }
impl Subj for L_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Val { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Val { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Val { pub a: Value }
impl Subj for Y_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Val".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Val { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Val { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Val(pub Value);
impl Subj for T_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Val".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Val(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Val(Subj::from_d(&v[0]))
    }
}
impl Default for T_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_Val { pub a: Value, pub b: bool }
impl Subj for YU_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Value as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_Val".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_Val { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_Val { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS { pub a: NS }
impl Subj for S_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_NS { pub a: NS }
impl Subj for L_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_NS { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_NS { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_NS { pub a: NS }
impl Subj for Y_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_NS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_NS { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_NS { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_NS(pub NS);
impl Subj for T_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_NS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_NS(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_NS(Subj::from_d(&v[0]))
    }
}
impl Default for T_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_NS { pub a: NS, pub b: bool }
impl Subj for YU_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <NS as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_NS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_NS { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_NS { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS { #[cbor(optional)] pub a: NS }
impl Subj for S_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONS { #[cbor(optional)] pub a: NS }
impl Subj for L_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONS { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONS { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONS { #[cbor(optional)] pub a: NS }
impl Subj for Y_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONS { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONS { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONS(#[cbor(optional)] pub NS);
impl Subj for T_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONS(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONS(Subj::from_d(&v[0]))
    }
}
impl Default for T_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_ONS { #[cbor(optional)] pub a: NS, pub b: bool }
impl Subj for YU_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <NS as Subj>::ty()).opt(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_ONS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_ONS { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_ONS { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN { pub a: EN }
impl Subj for S_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_EN { pub a: EN }
impl Subj for L_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_EN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_EN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_EN { pub a: EN }
impl Subj for Y_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_EN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_EN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_EN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_EN(pub EN);
impl Subj for T_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_EN".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_EN(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_EN(Subj::from_d(&v[0]))
    }
}
impl Default for T_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_EN { pub a: EN, pub b: bool }
impl Subj for YU_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <EN as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_EN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_EN { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_EN { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ORNum { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for L_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ORNum { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ORNum { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVal { #[cbor(optional)] pub a: Value }
impl Subj for S_OVal {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Value as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVal".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVal { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVal { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OVal {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OVal { #[cbor(optional)] pub a: Value }
impl Subj for L_OVal {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Value as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OVal".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OVal { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OVal { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OVal {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OVal { #[cbor(optional)] pub a: Value }
impl Subj for Y_OVal {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Value as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OVal".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OVal { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OVal { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OVal {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OVal(#[cbor(optional)] pub Value);
impl Subj for T_OVal {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Value as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OVal".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OVal(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OVal(Subj::from_d(&v[0]))
    }
}
impl Default for T_OVal {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OVal { #[cbor(optional)] pub a: Value, pub b: bool }
impl Subj for YU_OVal {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Value as Subj>::ty()).opt(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OVal".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OVal { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OVal { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OVal {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OTup { #[cbor(optional)] pub a: (u8, String) }
impl Subj for S_OTup {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(u8, String) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OTup".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OTup { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OTup { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OTup {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OTup { #[cbor(optional)] pub a: (u8, String) }
impl Subj for L_OTup {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(u8, String) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OTup".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OTup { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OTup { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OTup {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OTup { #[cbor(optional)] pub a: (u8, String) }
impl Subj for Y_OTup {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(u8, String) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OTup".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OTup { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OTup { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OTup {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OTup(#[cbor(optional)] pub (u8, String));
impl Subj for T_OTup {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(u8, String) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OTup".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OTup(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OTup(Subj::from_d(&v[0]))
    }
}
impl Default for T_OTup {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OTup { #[cbor(optional)] pub a: (u8, String), pub b: bool }
impl Subj for YU_OTup {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(u8, String) as Subj>::ty()).opt(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OTup".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OTup { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OTup { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OTup {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OTW { #[cbor(optional)] pub a: TW }
impl Subj for S_OTW {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <TW as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OTW".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OTW { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OTW { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OTW {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OTW { #[cbor(optional)] pub a: TW }
impl Subj for L_OTW {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <TW as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OTW".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OTW { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OTW { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OTW {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OTW { #[cbor(optional)] pub a: TW }
impl Subj for Y_OTW {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <TW as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OTW".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OTW { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OTW { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OTW {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OTW(#[cbor(optional)] pub TW);
impl Subj for T_OTW {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <TW as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OTW".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OTW(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OTW(Subj::from_d(&v[0]))
    }
}
impl Default for T_OTW {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OTW { #[cbor(optional)] pub a: TW, pub b: bool }
impl Subj for YU_OTW {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <TW as Subj>::ty()).opt(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OTW".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OTW { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OTW { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OTW {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OUN { #[cbor(optional)] pub a: UN }
impl Subj for S_OUN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <UN as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OUN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OUN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OUN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OUN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OUN { #[cbor(optional)] pub a: UN }
impl Subj for L_OUN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <UN as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OUN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OUN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OUN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OUN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OUN { #[cbor(optional)] pub a: UN }
impl Subj for Y_OUN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <UN as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OUN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OUN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OUN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OUN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OUN(#[cbor(optional)] pub UN);
impl Subj for T_OUN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <UN as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OUN".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OUN(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OUN(Subj::from_d(&v[0]))
    }
}
impl Default for T_OUN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OUN { #[cbor(optional)] pub a: UN, pub b: bool }
impl Subj for YU_OUN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <UN as Subj>::ty()).opt(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OUN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OUN { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OUN { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OUN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_UN { pub a: UN }
impl Subj for S_UN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <UN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_UN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_UN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_UN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_UN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_UN { pub a: UN }
impl Subj for L_UN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <UN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_UN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_UN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_UN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_UN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_UN { pub a: UN }
impl Subj for Y_UN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <UN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_UN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_UN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_UN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_UN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_UN(pub UN);
impl Subj for T_UN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <UN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_UN".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_UN(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_UN(Subj::from_d(&v[0]))
    }
}
impl Default for T_UN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_UN { pub a: UN, pub b: bool }
impl Subj for YU_UN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <UN as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_UN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_UN { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_UN { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_UN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OAR { #[cbor(optional)] pub a: AR }
impl Subj for S_OAR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <AR as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OAR".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OAR { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OAR { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OAR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OAR { #[cbor(optional)] pub a: AR }
impl Subj for L_OAR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <AR as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OAR".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OAR { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OAR { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OAR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OAR { #[cbor(optional)] pub a: AR }
impl Subj for Y_OAR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <AR as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OAR".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OAR { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OAR { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OAR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OAR(#[cbor(optional)] pub AR);
impl Subj for T_OAR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <AR as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OAR".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OAR(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OAR(Subj::from_d(&v[0]))
    }
}
impl Default for T_OAR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OAR { #[cbor(optional)] pub a: AR, pub b: bool }
impl Subj for YU_OAR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <AR as Subj>::ty()).opt(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OAR".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OAR { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OAR { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OAR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_AR { pub a: AR }
impl Subj for S_AR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <AR as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_AR".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_AR { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_AR { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_AR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_AR { pub a: AR }
impl Subj for L_AR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <AR as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_AR".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_AR { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_AR { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_AR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_AR { pub a: AR }
impl Subj for Y_AR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <AR as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_AR".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_AR { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_AR { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_AR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_AR(pub AR);
impl Subj for T_AR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <AR as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_AR".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_AR(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_AR(Subj::from_d(&v[0]))
    }
}
impl Default for T_AR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_AR { pub a: AR, pub b: bool }
impl Subj for YU_AR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <AR as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_AR".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_AR { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_AR { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_AR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ND { pub a: ND }
impl Subj for S_ND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ND as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ND".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ND { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ND { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_ND {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ND { pub a: ND }
impl Subj for L_ND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ND as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ND".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ND { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ND { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_ND {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ND { pub a: ND }
impl Subj for Y_ND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ND as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ND".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ND { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ND { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_ND {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ND(pub ND);
impl Subj for T_ND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <ND as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ND".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ND(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ND(Subj::from_d(&v[0]))
    }
}
impl Default for T_ND {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_ND { pub a: ND, pub b: bool }
impl Subj for YU_ND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ND as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_ND".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_ND { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_ND { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_ND {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OND { #[cbor(optional)] pub a: ND }
impl Subj for S_OND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ND as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OND".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OND { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OND { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OND {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OND { #[cbor(optional)] pub a: ND }
impl Subj for L_OND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ND as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OND".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OND { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OND { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OND {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OND { #[cbor(optional)] pub a: ND }
impl Subj for Y_OND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ND as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OND".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OND { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OND { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OND {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OND(#[cbor(optional)] pub ND);
impl Subj for T_OND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <ND as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OND".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OND(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OND(Subj::from_d(&v[0]))
    }
}
impl Default for T_OND {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OND { #[cbor(optional)] pub a: ND, pub b: bool }
impl Subj for YU_OND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ND as Subj>::ty()).opt(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OND".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OND { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OND { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OND {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ED { pub a: ED }
impl Subj for S_ED {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ED as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ED".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ED { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ED { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_ED {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ED { pub a: ED }
impl Subj for L_ED {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ED as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ED".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ED { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ED { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_ED {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ED { pub a: ED }
impl Subj for Y_ED {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ED as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ED".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ED { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ED { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_ED {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ED(pub ED);
impl Subj for T_ED {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <ED as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ED".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ED(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ED(Subj::from_d(&v[0]))
    }
}
impl Default for T_ED {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_ED { pub a: ED, pub b: bool }
impl Subj for YU_ED {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ED as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_ED".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_ED { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_ED { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_ED {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OED { #[cbor(optional)] pub a: ED }
impl Subj for S_OED {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ED as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OED".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OED { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OED { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OED {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OED { #[cbor(optional)] pub a: ED }
impl Subj for L_OED {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ED as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OED".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OED { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OED { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OED {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OED { #[cbor(optional)] pub a: ED }
impl Subj for Y_OED {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ED as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OED".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OED { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OED { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OED {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OED(#[cbor(optional)] pub ED);
impl Subj for T_OED {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <ED as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OED".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OED(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OED(Subj::from_d(&v[0]))
    }
}
impl Default for T_OED {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OED { #[cbor(optional)] pub a: ED, pub b: bool }
impl Subj for YU_OED {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ED as Subj>::ty()).opt(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OED".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OED { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OED { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OED {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OEN { #[cbor(optional)] pub a: EN }
impl Subj for S_OEN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <EN as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OEN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OEN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OEN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OEN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OEN { #[cbor(optional)] pub a: EN }
impl Subj for L_OEN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <EN as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OEN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OEN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OEN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OEN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OEN { #[cbor(optional)] pub a: EN }
impl Subj for Y_OEN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <EN as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OEN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OEN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OEN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OEN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OEN(#[cbor(optional)] pub EN);
impl Subj for T_OEN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <EN as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OEN".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OEN(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OEN(Subj::from_d(&v[0]))
    }
}
impl Default for T_OEN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OEN { #[cbor(optional)] pub a: EN, pub b: bool }
impl Subj for YU_OEN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <EN as Subj>::ty()).opt(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OEN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OEN { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OEN { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OEN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OptEN { pub a: Option<EN> }
impl Subj for S_OptEN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OptEN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OptEN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OptEN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OptEN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OptEN { pub a: Option<EN> }
impl Subj for L_OptEN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OptEN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OptEN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OptEN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OptEN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OptEN { pub a: Option<EN> }
impl Subj for Y_OptEN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OptEN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OptEN { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OptEN { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OptEN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OptEN(pub Option<EN>);
impl Subj for T_OptEN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OptEN".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OptEN(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OptEN(Subj::from_d(&v[0]))
    }
}
impl Default for T_OptEN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OptEN { pub a: Option<EN>, pub b: bool }
impl Subj for YU_OptEN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<EN> as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OptEN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OptEN { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OptEN { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OptEN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Arr { pub a: [u16; 2] }
impl Subj for S_Arr {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[u16; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Arr".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Arr { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Arr { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_Arr {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Arr { pub a: [u16; 2] }
impl Subj for L_Arr {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[u16; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Arr".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Arr { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Arr { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_Arr {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Arr { pub a: [u16; 2] }
impl Subj for Y_Arr {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[u16; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Arr".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Arr { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Arr { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_Arr {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Arr(pub [u16; 2]);
impl Subj for T_Arr {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[u16; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Arr".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Arr(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Arr(Subj::from_d(&v[0]))
    }
}
impl Default for T_Arr {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_Arr { pub a: [u16; 2], pub b: bool }
impl Subj for YU_Arr {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[u16; 2] as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_Arr".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_Arr { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_Arr { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_Arr {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OArr { #[cbor(optional)] pub a: [u8; 2] }
impl Subj for S_OArr {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[u8; 2] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OArr".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OArr { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OArr { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OArr {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OArr { #[cbor(optional)] pub a: [u8; 2] }
impl Subj for L_OArr {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[u8; 2] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OArr".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OArr { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OArr { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OArr {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OArr { #[cbor(optional)] pub a: [u8; 2] }
impl Subj for Y_OArr {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[u8; 2] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OArr".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OArr { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OArr { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OArr {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OArr(#[cbor(optional)] pub [u8; 2]);
impl Subj for T_OArr {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[u8; 2] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OArr".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OArr(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OArr(Subj::from_d(&v[0]))
    }
}
impl Default for T_OArr {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OArr { #[cbor(optional)] pub a: [u8; 2], pub b: bool }
impl Subj for YU_OArr {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[u8; 2] as Subj>::ty()).opt(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OArr".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OArr { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OArr { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OArr {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Unit { pub a: () }
impl Subj for S_Unit {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <() as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Unit".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Unit { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Unit { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_Unit {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Unit { pub a: () }
impl Subj for L_Unit {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <() as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Unit".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Unit { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Unit { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_Unit {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Unit { pub a: () }
impl Subj for Y_Unit {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <() as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Unit".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Unit { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Unit { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_Unit {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Unit(pub ());
impl Subj for T_Unit {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <() as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Unit".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Unit(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Unit(Subj::from_d(&v[0]))
    }
}
impl Default for T_Unit {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_Unit { pub a: (), pub b: bool }
impl Subj for YU_Unit {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <() as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_Unit".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_Unit { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_Unit { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_Unit {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OUnit { #[cbor(optional)] pub a: () }
impl Subj for S_OUnit {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <() as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OUnit".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OUnit { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OUnit { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OUnit {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OUnit { #[cbor(optional)] pub a: () }
impl Subj for L_OUnit {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <() as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OUnit".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OUnit { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OUnit { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OUnit {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OUnit { #[cbor(optional)] pub a: () }
impl Subj for Y_OUnit {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <() as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OUnit".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OUnit { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OUnit { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OUnit {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OUnit(#[cbor(optional)] pub ());
impl Subj for T_OUnit {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <() as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OUnit".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OUnit(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OUnit(Subj::from_d(&v[0]))
    }
}
impl Default for T_OUnit {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OUnit { #[cbor(optional)] pub a: (), pub b: bool }
impl Subj for YU_OUnit {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <() as Subj>::ty()).opt(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OUnit".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OUnit { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OUnit { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OUnit {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_WithNs { #[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] pub a: Vec<u8> }
impl Subj for S_WithNs {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<u8> as Subj>::ty()).coded(wrap())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_WithNs".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_WithNs { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_WithNs { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_WithNs {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_WithNs { #[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] pub a: Vec<u8> }
impl Subj for L_WithNs {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<u8> as Subj>::ty()).coded(wrap())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_WithNs".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_WithNs { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_WithNs { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_WithNs {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_WithNs { #[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] pub a: Vec<u8> }
impl Subj for Y_WithNs {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<u8> as Subj>::ty()).coded(wrap())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_WithNs".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_WithNs { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_WithNs { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_WithNs {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_WithNs(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] pub Vec<u8>);
impl Subj for T_WithNs {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_WithNs".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_WithNs(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_WithNs(Subj::from_d(&v[0]))
    }
}
impl Default for T_WithNs {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_WithNs { #[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] pub a: Vec<u8>, pub b: bool }
impl Subj for YU_WithNs {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<u8> as Subj>::ty()).coded(wrap()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_WithNs".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_WithNs { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_WithNs { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_WithNs {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWithIf { #[cbor(optional, skip_serializing_if = "is_seven", serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_OWithIf {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWithIf".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWithIf { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWithIf { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OWithIf {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OWithIf { #[cbor(optional, skip_serializing_if = "is_seven", serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for L_OWithIf {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OWithIf".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OWithIf { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OWithIf { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OWithIf {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OROpt { #[cbor(optional, rename = "zz", skip_serializing_if = "Option::is_none")] pub a: Option<String> }
impl Subj for S_OROpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("zz"), <Option<String> as Subj>::ty()).opt().skip_when(|d| *d == D::None)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OROpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OROpt { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OROpt { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OROpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OROpt { #[cbor(optional, rename = "zz", skip_serializing_if = "Option::is_none")] pub a: Option<String> }
impl Subj for L_OROpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("zz"), <Option<String> as Subj>::ty()).opt().skip_when(|d| *d == D::None)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OROpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OROpt { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OROpt { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OROpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OStrIf { #[cbor(optional, skip_serializing_if = "String::is_empty")] pub a: String }
impl Subj for S_OStrIf {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <String as Subj>::ty()).opt().skip_when(|d| *d == D::Str(String::new()))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OStrIf".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OStrIf { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OStrIf { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OStrIf {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OStrIf { #[cbor(optional, skip_serializing_if = "String::is_empty")] pub a: String }
impl Subj for L_OStrIf {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <String as Subj>::ty()).opt().skip_when(|d| *d == D::Str(String::new()))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OStrIf".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OStrIf { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OStrIf { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OStrIf {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_SkipRen { #[cbor(skip, rename = "aa")] pub a: u8 }
impl Subj for S_SkipRen {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("aa"), <u8 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_SkipRen".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_SkipRen { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_SkipRen { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_SkipRen {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_SkipRen { #[cbor(skip, rename = "aa")] pub a: u8 }
impl Subj for L_SkipRen {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("aa"), <u8 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_SkipRen".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_SkipRen { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_SkipRen { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_SkipRen {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_SkipRen { #[cbor(skip, rename = "aa")] pub a: u8 }
impl Subj for Y_SkipRen {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("aa"), <u8 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_SkipRen".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_SkipRen { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_SkipRen { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_SkipRen {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_SkipRen(#[cbor(skip, rename = "aa")] pub u8);
impl Subj for T_SkipRen {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("aa"), <u8 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_SkipRen".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_SkipRen(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_SkipRen(Subj::from_d(&v[0]))
    }
}
impl Default for T_SkipRen {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_SkipRen { #[cbor(skip, rename = "aa")] pub a: u8, pub b: bool }
impl Subj for YU_SkipRen {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("aa"), <u8 as Subj>::ty()).skipped(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_SkipRen".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_SkipRen { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_SkipRen { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_SkipRen {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_SkipOpt { #[cbor(skip, optional)] pub a: Option<NS> }
impl Subj for S_SkipOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<NS> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_SkipOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_SkipOpt { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_SkipOpt { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_SkipOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_SkipOpt { #[cbor(skip, optional)] pub a: Option<NS> }
impl Subj for L_SkipOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<NS> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_SkipOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_SkipOpt { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_SkipOpt { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_SkipOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_SkipOpt { #[cbor(skip, optional)] pub a: Option<NS> }
impl Subj for Y_SkipOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<NS> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_SkipOpt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_SkipOpt { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_SkipOpt { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_SkipOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_SkipOpt(#[cbor(skip, optional)] pub Option<NS>);
impl Subj for T_SkipOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<NS> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_SkipOpt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_SkipOpt(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_SkipOpt(Subj::from_d(&v[0]))
    }
}
impl Default for T_SkipOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_SkipOpt { #[cbor(skip, optional)] pub a: Option<NS>, pub b: bool }
impl Subj for YU_SkipOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<NS> as Subj>::ty()).skipped(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_SkipOpt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_SkipOpt { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_SkipOpt { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_SkipOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_SkipCod { #[cbor(serialize_with = "ser_num", skip, deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_SkipCod {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u16 as Subj>::ty()).skipped().coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_SkipCod".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_SkipCod { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_SkipCod { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_SkipCod {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_SkipCod { #[cbor(serialize_with = "ser_num", skip, deserialize_with = "de_num")] pub a: u16 }
impl Subj for L_SkipCod {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u16 as Subj>::ty()).skipped().coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_SkipCod".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_SkipCod { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_SkipCod { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_SkipCod {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_SkipCod { #[cbor(serialize_with = "ser_num", skip, deserialize_with = "de_num")] pub a: u16 }
impl Subj for Y_SkipCod {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u16 as Subj>::ty()).skipped().coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_SkipCod".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_SkipCod { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_SkipCod { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_SkipCod {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_SkipCod(#[cbor(serialize_with = "ser_num", skip, deserialize_with = "de_num")] pub u16);
impl Subj for T_SkipCod {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).skipped().coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_SkipCod".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_SkipCod(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_SkipCod(Subj::from_d(&v[0]))
    }
}
impl Default for T_SkipCod {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_SkipCod { #[cbor(serialize_with = "ser_num", skip, deserialize_with = "de_num")] pub a: u16, pub b: bool }
impl Subj for YU_SkipCod {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u16 as Subj>::ty()).skipped().coded(num()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_SkipCod".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_SkipCod { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_SkipCod { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_SkipCod {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_SkipIf { #[cbor(optional, skip, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_SkipIf {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_SkipIf".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_SkipIf { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_SkipIf { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_SkipIf {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_SkipIf { #[cbor(optional, skip, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for L_SkipIf {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_SkipIf".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_SkipIf { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_SkipIf { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_SkipIf {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_SkipIf { #[cbor(optional, skip, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for Y_SkipIf {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_SkipIf".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_SkipIf { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_SkipIf { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_SkipIf {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_SkipIf(#[cbor(optional, skip, skip_serializing_if = "is_seven")] pub u8);
impl Subj for T_SkipIf {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_SkipIf".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_SkipIf(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_SkipIf(Subj::from_d(&v[0]))
    }
}
impl Default for T_SkipIf {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_SkipIf { #[cbor(optional, skip, skip_serializing_if = "is_seven")] pub a: u8, pub b: bool }
impl Subj for YU_SkipIf {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).skipped(), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_SkipIf".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_SkipIf { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_SkipIf { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_SkipIf {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_IfOnly { #[cbor(skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_IfOnly {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_IfOnly".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_IfOnly { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_IfOnly { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_IfOnly {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_IfOnly { #[cbor(skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for L_IfOnly {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_IfOnly".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_IfOnly { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_IfOnly { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_IfOnly {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RWith { #[cbor(rename = 2, deserialize_with = "de_num", serialize_with = "ser_num")] pub a: u16 }
impl Subj for S_RWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(2), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RWith { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RWith { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_RWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RWith { #[cbor(rename = 2, deserialize_with = "de_num", serialize_with = "ser_num")] pub a: u16 }
impl Subj for L_RWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(2), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RWith { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RWith { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_RWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RWith { #[cbor(rename = 2, deserialize_with = "de_num", serialize_with = "ser_num")] pub a: u16 }
impl Subj for Y_RWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(2), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RWith".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RWith { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RWith { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_RWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RWith(#[cbor(rename = 2, deserialize_with = "de_num", serialize_with = "ser_num")] pub u16);
impl Subj for T_RWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(2), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RWith".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RWith(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RWith(Subj::from_d(&v[0]))
    }
}
impl Default for T_RWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_RWith { #[cbor(rename = 2, deserialize_with = "de_num", serialize_with = "ser_num")] pub a: u16, pub b: bool }
impl Subj for YU_RWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(2), <u16 as Subj>::ty()).coded(num()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_RWith".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_RWith { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_RWith { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_RWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OSer { #[cbor(serialize_with = "ser_clamp", optional)] pub a: u8 }
impl Subj for S_OSer {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OSer".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OSer { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OSer { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OSer {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OSer { #[cbor(serialize_with = "ser_clamp", optional)] pub a: u8 }
impl Subj for L_OSer {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OSer".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OSer { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OSer { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OSer {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OSer { #[cbor(serialize_with = "ser_clamp", optional)] pub a: u8 }
impl Subj for Y_OSer {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OSer".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OSer { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OSer { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OSer {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OSer(#[cbor(serialize_with = "ser_clamp", optional)] pub u8);
impl Subj for T_OSer {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OSer".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OSer(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OSer(Subj::from_d(&v[0]))
    }
}
impl Default for T_OSer {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OSer { #[cbor(serialize_with = "ser_clamp", optional)] pub a: u8, pub b: bool }
impl Subj for YU_OSer {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(clamp()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OSer".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OSer { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OSer { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OSer {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ODe { #[cbor(deserialize_with = "de_inc", optional)] pub a: u8 }
impl Subj for S_ODe {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ODe".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ODe { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ODe { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_ODe {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ODe { #[cbor(deserialize_with = "de_inc", optional)] pub a: u8 }
impl Subj for L_ODe {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ODe".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ODe { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ODe { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_ODe {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ODe { #[cbor(deserialize_with = "de_inc", optional)] pub a: u8 }
impl Subj for Y_ODe {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ODe".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ODe { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ODe { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_ODe {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ODe(#[cbor(deserialize_with = "de_inc", optional)] pub u8);
impl Subj for T_ODe {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ODe".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ODe(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ODe(Subj::from_d(&v[0]))
    }
}
impl Default for T_ODe {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_ODe { #[cbor(deserialize_with = "de_inc", optional)] pub a: u8, pub b: bool }
impl Subj for YU_ODe {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(inc()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_ODe".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_ODe { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_ODe { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_ODe {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Und { #[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] pub a: u8 }
impl Subj for S_Und {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(under())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Und".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Und { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Und { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_Und {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Und { #[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] pub a: u8 }
impl Subj for L_Und {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(under())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Und".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Und { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Und { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_Und {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Und { #[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] pub a: u8 }
impl Subj for Y_Und {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(under())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Und".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Und { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Und { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_Und {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Und(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] pub u8);
impl Subj for T_Und {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(under())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Und".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Und(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Und(Subj::from_d(&v[0]))
    }
}
impl Default for T_Und {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_Und { #[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] pub a: u8, pub b: bool }
impl Subj for YU_Und {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(under()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_Und".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_Und { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_Und { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_Und {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OUnd { #[cbor(optional, serialize_with = "ser_under", deserialize_with = "de_under")] pub a: u8 }
impl Subj for S_OUnd {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(under())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OUnd".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OUnd { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OUnd { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_OUnd {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OUnd { #[cbor(optional, serialize_with = "ser_under", deserialize_with = "de_under")] pub a: u8 }
impl Subj for L_OUnd {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(under())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OUnd".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OUnd { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OUnd { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_OUnd {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OUnd { #[cbor(optional, serialize_with = "ser_under", deserialize_with = "de_under")] pub a: u8 }
impl Subj for Y_OUnd {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(under())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OUnd".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OUnd { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OUnd { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_OUnd {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OUnd(#[cbor(optional, serialize_with = "ser_under", deserialize_with = "de_under")] pub u8);
impl Subj for T_OUnd {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(under())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OUnd".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OUnd(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OUnd(Subj::from_d(&v[0]))
    }
}
impl Default for T_OUnd {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_OUnd { #[cbor(optional, serialize_with = "ser_under", deserialize_with = "de_under")] pub a: u8, pub b: bool }
impl Subj for YU_OUnd {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(under()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_OUnd".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_OUnd { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_OUnd { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_OUnd {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Map { pub a: BTreeMap<String, NS> }
impl Subj for S_Map {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <BTreeMap<String, NS> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Map".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Map { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Map { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_Map {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Map { pub a: BTreeMap<String, NS> }
impl Subj for L_Map {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <BTreeMap<String, NS> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Map".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Map { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Map { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_Map {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Map { pub a: BTreeMap<String, NS> }
impl Subj for Y_Map {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <BTreeMap<String, NS> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Map".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Map { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Map { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_Map {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Map(pub BTreeMap<String, NS>);
impl Subj for T_Map {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<String, NS> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Map".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Map(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Map(Subj::from_d(&v[0]))
    }
}
impl Default for T_Map {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_Map { pub a: BTreeMap<String, NS>, pub b: bool }
impl Subj for YU_Map {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <BTreeMap<String, NS> as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_Map".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_Map { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_Map { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_Map {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_HMap { pub a: HashMap<String, u8> }
impl Subj for S_HMap {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <HashMap<String, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_HMap".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_HMap { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_HMap { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_HMap {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_HMap { pub a: HashMap<String, u8> }
impl Subj for L_HMap {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <HashMap<String, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_HMap".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_HMap { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_HMap { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_HMap {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_HMap { pub a: HashMap<String, u8> }
impl Subj for Y_HMap {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <HashMap<String, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_HMap".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_HMap { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_HMap { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_HMap {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_HMap(pub HashMap<String, u8>);
impl Subj for T_HMap {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <HashMap<String, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_HMap".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_HMap(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_HMap(Subj::from_d(&v[0]))
    }
}
impl Default for T_HMap {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_HMap { pub a: HashMap<String, u8>, pub b: bool }
impl Subj for YU_HMap {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <HashMap<String, u8> as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_HMap".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_HMap { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_HMap { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_HMap {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_HSet { pub a: HashSet<u16> }
impl Subj for S_HSet {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <HashSet<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_HSet".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_HSet { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_HSet { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_HSet {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_HSet { pub a: HashSet<u16> }
impl Subj for L_HSet {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <HashSet<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_HSet".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_HSet { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_HSet { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_HSet {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_HSet { pub a: HashSet<u16> }
impl Subj for Y_HSet {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <HashSet<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_HSet".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_HSet { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_HSet { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_HSet {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_HSet(pub HashSet<u16>);
impl Subj for T_HSet {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <HashSet<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_HSet".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_HSet(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_HSet(Subj::from_d(&v[0]))
    }
}
impl Default for T_HSet {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_HSet { pub a: HashSet<u16>, pub b: bool }
impl Subj for YU_HSet {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <HashSet<u16> as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_HSet".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_HSet { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_HSet { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_HSet {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_VecNS { pub a: Vec<NS> }
impl Subj for S_VecNS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<NS> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_VecNS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_VecNS { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_VecNS { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_VecNS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_VecNS { pub a: Vec<NS> }
impl Subj for L_VecNS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<NS> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_VecNS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_VecNS { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_VecNS { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_VecNS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_VecNS { pub a: Vec<NS> }
impl Subj for Y_VecNS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<NS> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_VecNS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_VecNS { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_VecNS { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_VecNS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_VecNS(pub Vec<NS>);
impl Subj for T_VecNS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<NS> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_VecNS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_VecNS(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_VecNS(Subj::from_d(&v[0]))
    }
}
impl Default for T_VecNS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_VecNS { pub a: Vec<NS>, pub b: bool }
impl Subj for YU_VecNS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<NS> as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_VecNS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_VecNS { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_VecNS { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_VecNS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u128 { pub a: u128 }
impl Subj for S_u128 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u128 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u128".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u128 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u128 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_u128 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_u128 { pub a: u128 }
impl Subj for L_u128 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u128 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_u128".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_u128 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_u128 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_u128 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_u128 { pub a: u128 }
impl Subj for Y_u128 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u128 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_u128".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_u128 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_u128 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_u128 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_u128(pub u128);
impl Subj for T_u128 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u128 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_u128".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_u128(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_u128(Subj::from_d(&v[0]))
    }
}
impl Default for T_u128 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_u128 { pub a: u128, pub b: bool }
impl Subj for YU_u128 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u128 as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_u128".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_u128 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_u128 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_u128 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_char { pub a: char }
impl Subj for S_char {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <char as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_char".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_char { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_char { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_char {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_char { pub a: char }
impl Subj for L_char {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <char as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_char".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_char { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_char { a: Subj::from_d(&v[0]) }
    }
}
impl Default for L_char {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_char { pub a: char }
impl Subj for Y_char {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <char as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_char".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_char { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_char { a: Subj::from_d(&v[0]) }
    }
}
impl Default for Y_char {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_char(pub char);
impl Subj for T_char {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <char as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_char".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_char(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_char(Subj::from_d(&v[0]))
    }
}
impl Default for T_char {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct YU_char { pub a: char, pub b: bool }
impl Subj for YU_char {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <char as Subj>::ty()), fld(t("b"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "YU_char".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let YU_char { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        YU_char { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for YU_char {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_u8 { pub bb: u8, pub a: u8 }
impl Subj for S_u8_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_Str { pub bb: u8, pub a: String }
impl Subj for S_u8_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_Opt { pub bb: u8, pub a: Option<u16> }
impl Subj for S_u8_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_OOpt { pub bb: u8, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_u8_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_ONum { pub bb: u8, #[cbor(optional)] pub a: u64 }
impl Subj for S_u8_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_OVec { pub bb: u8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_u8_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_Skip { pub bb: u8, #[cbor(skip)] pub a: u32 }
impl Subj for S_u8_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_RText { pub bb: u8, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_u8_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_RNum { pub bb: u8, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_u8_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_RLong { pub bb: u8, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_u8_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_With { pub bb: u8, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_u8_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_OWith { pub bb: u8, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_u8_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_Ser { pub bb: u8, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_u8_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_De { pub bb: u8, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_u8_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_Val { pub bb: u8, pub a: Value }
impl Subj for S_u8_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_NS { pub bb: u8, pub a: NS }
impl Subj for S_u8_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_ONS { pub bb: u8, #[cbor(optional)] pub a: NS }
impl Subj for S_u8_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_EN { pub bb: u8, pub a: EN }
impl Subj for S_u8_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u8_ORNum { pub bb: u8, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_u8_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u8_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u8_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u8_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u8_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_u8 { pub bb: String, pub a: u8 }
impl Subj for S_Str_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_Str { pub bb: String, pub a: String }
impl Subj for S_Str_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_Opt { pub bb: String, pub a: Option<u16> }
impl Subj for S_Str_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_OOpt { pub bb: String, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_Str_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_ONum { pub bb: String, #[cbor(optional)] pub a: u64 }
impl Subj for S_Str_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_OVec { pub bb: String, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_Str_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_Skip { pub bb: String, #[cbor(skip)] pub a: u32 }
impl Subj for S_Str_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_RText { pub bb: String, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_Str_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_RNum { pub bb: String, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_Str_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_RLong { pub bb: String, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_Str_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_With { pub bb: String, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_Str_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_OWith { pub bb: String, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_Str_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_Ser { pub bb: String, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_Str_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_De { pub bb: String, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_Str_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_Val { pub bb: String, pub a: Value }
impl Subj for S_Str_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_NS { pub bb: String, pub a: NS }
impl Subj for S_Str_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_ONS { pub bb: String, #[cbor(optional)] pub a: NS }
impl Subj for S_Str_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_EN { pub bb: String, pub a: EN }
impl Subj for S_Str_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Str_ORNum { pub bb: String, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_Str_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Str_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Str_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Str_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Str_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_u8 { pub bb: Option<u16>, pub a: u8 }
impl Subj for S_Opt_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_Str { pub bb: Option<u16>, pub a: String }
impl Subj for S_Opt_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_Opt { pub bb: Option<u16>, pub a: Option<u16> }
impl Subj for S_Opt_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_OOpt { pub bb: Option<u16>, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_Opt_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_ONum { pub bb: Option<u16>, #[cbor(optional)] pub a: u64 }
impl Subj for S_Opt_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_OVec { pub bb: Option<u16>, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_Opt_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_Skip { pub bb: Option<u16>, #[cbor(skip)] pub a: u32 }
impl Subj for S_Opt_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_RText { pub bb: Option<u16>, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_Opt_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_RNum { pub bb: Option<u16>, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_Opt_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_RLong { pub bb: Option<u16>, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_Opt_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_With { pub bb: Option<u16>, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_Opt_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_OWith { pub bb: Option<u16>, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_Opt_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_Ser { pub bb: Option<u16>, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_Opt_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_De { pub bb: Option<u16>, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_Opt_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_Val { pub bb: Option<u16>, pub a: Value }
impl Subj for S_Opt_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_NS { pub bb: Option<u16>, pub a: NS }
impl Subj for S_Opt_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_ONS { pub bb: Option<u16>, #[cbor(optional)] pub a: NS }
impl Subj for S_Opt_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_EN { pub bb: Option<u16>, pub a: EN }
impl Subj for S_Opt_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Opt_ORNum { pub bb: Option<u16>, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_Opt_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Opt_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Opt_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Opt_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Opt_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_u8 { #[cbor(optional)] pub bb: Option<u8>, pub a: u8 }
impl Subj for S_OOpt_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_Str { #[cbor(optional)] pub bb: Option<u8>, pub a: String }
impl Subj for S_OOpt_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_Opt { #[cbor(optional)] pub bb: Option<u8>, pub a: Option<u16> }
impl Subj for S_OOpt_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_OOpt { #[cbor(optional)] pub bb: Option<u8>, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_OOpt_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_ONum { #[cbor(optional)] pub bb: Option<u8>, #[cbor(optional)] pub a: u64 }
impl Subj for S_OOpt_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_OVec { #[cbor(optional)] pub bb: Option<u8>, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_OOpt_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_Skip { #[cbor(optional)] pub bb: Option<u8>, #[cbor(skip)] pub a: u32 }
impl Subj for S_OOpt_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_RText { #[cbor(optional)] pub bb: Option<u8>, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_OOpt_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_RNum { #[cbor(optional)] pub bb: Option<u8>, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_OOpt_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_RLong { #[cbor(optional)] pub bb: Option<u8>, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_OOpt_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_With { #[cbor(optional)] pub bb: Option<u8>, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_OOpt_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_OWith { #[cbor(optional)] pub bb: Option<u8>, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_OOpt_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_Ser { #[cbor(optional)] pub bb: Option<u8>, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_OOpt_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_De { #[cbor(optional)] pub bb: Option<u8>, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_OOpt_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_Val { #[cbor(optional)] pub bb: Option<u8>, pub a: Value }
impl Subj for S_OOpt_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_NS { #[cbor(optional)] pub bb: Option<u8>, pub a: NS }
impl Subj for S_OOpt_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_ONS { #[cbor(optional)] pub bb: Option<u8>, #[cbor(optional)] pub a: NS }
impl Subj for S_OOpt_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_EN { #[cbor(optional)] pub bb: Option<u8>, pub a: EN }
impl Subj for S_OOpt_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OOpt_ORNum { #[cbor(optional)] pub bb: Option<u8>, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_OOpt_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OOpt_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OOpt_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OOpt_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OOpt_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_u8 { #[cbor(optional)] pub bb: u64, pub a: u8 }
impl Subj for S_ONum_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_Str { #[cbor(optional)] pub bb: u64, pub a: String }
impl Subj for S_ONum_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_Opt { #[cbor(optional)] pub bb: u64, pub a: Option<u16> }
impl Subj for S_ONum_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_OOpt { #[cbor(optional)] pub bb: u64, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_ONum_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_ONum { #[cbor(optional)] pub bb: u64, #[cbor(optional)] pub a: u64 }
impl Subj for S_ONum_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_OVec { #[cbor(optional)] pub bb: u64, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_ONum_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_Skip { #[cbor(optional)] pub bb: u64, #[cbor(skip)] pub a: u32 }
impl Subj for S_ONum_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_RText { #[cbor(optional)] pub bb: u64, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_ONum_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_RNum { #[cbor(optional)] pub bb: u64, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_ONum_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_RLong { #[cbor(optional)] pub bb: u64, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_ONum_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_With { #[cbor(optional)] pub bb: u64, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_ONum_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_OWith { #[cbor(optional)] pub bb: u64, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_ONum_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_Ser { #[cbor(optional)] pub bb: u64, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_ONum_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_De { #[cbor(optional)] pub bb: u64, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_ONum_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_Val { #[cbor(optional)] pub bb: u64, pub a: Value }
impl Subj for S_ONum_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_NS { #[cbor(optional)] pub bb: u64, pub a: NS }
impl Subj for S_ONum_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_ONS { #[cbor(optional)] pub bb: u64, #[cbor(optional)] pub a: NS }
impl Subj for S_ONum_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_EN { #[cbor(optional)] pub bb: u64, pub a: EN }
impl Subj for S_ONum_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONum_ORNum { #[cbor(optional)] pub bb: u64, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_ONum_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONum_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONum_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONum_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONum_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_u8 { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, pub a: u8 }
impl Subj for S_OVec_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_Str { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, pub a: String }
impl Subj for S_OVec_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_Opt { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, pub a: Option<u16> }
impl Subj for S_OVec_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_OOpt { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_OVec_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_ONum { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(optional)] pub a: u64 }
impl Subj for S_OVec_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_OVec { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_OVec_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_Skip { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(skip)] pub a: u32 }
impl Subj for S_OVec_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_RText { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_OVec_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_RNum { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_OVec_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_RLong { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_OVec_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_With { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_OVec_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_OWith { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_OVec_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_Ser { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_OVec_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_De { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_OVec_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_Val { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, pub a: Value }
impl Subj for S_OVec_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_NS { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, pub a: NS }
impl Subj for S_OVec_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_ONS { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(optional)] pub a: NS }
impl Subj for S_OVec_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_EN { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, pub a: EN }
impl Subj for S_OVec_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVec_ORNum { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_OVec_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVec_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVec_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVec_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVec_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_u8 { #[cbor(skip)] pub bb: u32, pub a: u8 }
impl Subj for S_Skip_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_Str { #[cbor(skip)] pub bb: u32, pub a: String }
impl Subj for S_Skip_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_Opt { #[cbor(skip)] pub bb: u32, pub a: Option<u16> }
impl Subj for S_Skip_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_OOpt { #[cbor(skip)] pub bb: u32, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_Skip_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_ONum { #[cbor(skip)] pub bb: u32, #[cbor(optional)] pub a: u64 }
impl Subj for S_Skip_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_OVec { #[cbor(skip)] pub bb: u32, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_Skip_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_Skip { #[cbor(skip)] pub bb: u32, #[cbor(skip)] pub a: u32 }
impl Subj for S_Skip_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_RText { #[cbor(skip)] pub bb: u32, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_Skip_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_RNum { #[cbor(skip)] pub bb: u32, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_Skip_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_RLong { #[cbor(skip)] pub bb: u32, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_Skip_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_With { #[cbor(skip)] pub bb: u32, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_Skip_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_OWith { #[cbor(skip)] pub bb: u32, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_Skip_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_Ser { #[cbor(skip)] pub bb: u32, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_Skip_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_De { #[cbor(skip)] pub bb: u32, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_Skip_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_Val { #[cbor(skip)] pub bb: u32, pub a: Value }
impl Subj for S_Skip_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_NS { #[cbor(skip)] pub bb: u32, pub a: NS }
impl Subj for S_Skip_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_ONS { #[cbor(skip)] pub bb: u32, #[cbor(optional)] pub a: NS }
impl Subj for S_Skip_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_EN { #[cbor(skip)] pub bb: u32, pub a: EN }
impl Subj for S_Skip_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Skip_ORNum { #[cbor(skip)] pub bb: u32, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_Skip_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Skip_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Skip_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Skip_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Skip_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_u8 { #[cbor(rename = "q")] pub bb: i8, pub a: u8 }
impl Subj for S_RText_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_Str { #[cbor(rename = "q")] pub bb: i8, pub a: String }
impl Subj for S_RText_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_Opt { #[cbor(rename = "q")] pub bb: i8, pub a: Option<u16> }
impl Subj for S_RText_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_OOpt { #[cbor(rename = "q")] pub bb: i8, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_RText_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_ONum { #[cbor(rename = "q")] pub bb: i8, #[cbor(optional)] pub a: u64 }
impl Subj for S_RText_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_OVec { #[cbor(rename = "q")] pub bb: i8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_RText_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_Skip { #[cbor(rename = "q")] pub bb: i8, #[cbor(skip)] pub a: u32 }
impl Subj for S_RText_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_RText { #[cbor(rename = "q")] pub bb: i8, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_RText_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_RNum { #[cbor(rename = "q")] pub bb: i8, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_RText_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_RLong { #[cbor(rename = "q")] pub bb: i8, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_RText_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_With { #[cbor(rename = "q")] pub bb: i8, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_RText_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_OWith { #[cbor(rename = "q")] pub bb: i8, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_RText_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_Ser { #[cbor(rename = "q")] pub bb: i8, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_RText_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_De { #[cbor(rename = "q")] pub bb: i8, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_RText_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_Val { #[cbor(rename = "q")] pub bb: i8, pub a: Value }
impl Subj for S_RText_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_NS { #[cbor(rename = "q")] pub bb: i8, pub a: NS }
impl Subj for S_RText_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_ONS { #[cbor(rename = "q")] pub bb: i8, #[cbor(optional)] pub a: NS }
impl Subj for S_RText_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_EN { #[cbor(rename = "q")] pub bb: i8, pub a: EN }
impl Subj for S_RText_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RText_ORNum { #[cbor(rename = "q")] pub bb: i8, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_RText_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RText_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RText_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RText_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RText_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_u8 { #[cbor(rename = 7)] pub bb: i16, pub a: u8 }
impl Subj for S_RNum_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_Str { #[cbor(rename = 7)] pub bb: i16, pub a: String }
impl Subj for S_RNum_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_Opt { #[cbor(rename = 7)] pub bb: i16, pub a: Option<u16> }
impl Subj for S_RNum_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_OOpt { #[cbor(rename = 7)] pub bb: i16, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_RNum_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_ONum { #[cbor(rename = 7)] pub bb: i16, #[cbor(optional)] pub a: u64 }
impl Subj for S_RNum_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_OVec { #[cbor(rename = 7)] pub bb: i16, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_RNum_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_Skip { #[cbor(rename = 7)] pub bb: i16, #[cbor(skip)] pub a: u32 }
impl Subj for S_RNum_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_RText { #[cbor(rename = 7)] pub bb: i16, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_RNum_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_RNum { #[cbor(rename = 7)] pub bb: i16, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_RNum_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_RLong { #[cbor(rename = 7)] pub bb: i16, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_RNum_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_With { #[cbor(rename = 7)] pub bb: i16, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_RNum_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_OWith { #[cbor(rename = 7)] pub bb: i16, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_RNum_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_Ser { #[cbor(rename = 7)] pub bb: i16, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_RNum_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_De { #[cbor(rename = 7)] pub bb: i16, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_RNum_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_Val { #[cbor(rename = 7)] pub bb: i16, pub a: Value }
impl Subj for S_RNum_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_NS { #[cbor(rename = 7)] pub bb: i16, pub a: NS }
impl Subj for S_RNum_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_ONS { #[cbor(rename = 7)] pub bb: i16, #[cbor(optional)] pub a: NS }
impl Subj for S_RNum_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_EN { #[cbor(rename = 7)] pub bb: i16, pub a: EN }
impl Subj for S_RNum_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RNum_ORNum { #[cbor(rename = 7)] pub bb: i16, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_RNum_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RNum_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RNum_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RNum_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RNum_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_u8 { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, pub a: u8 }
impl Subj for S_RLong_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_Str { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, pub a: String }
impl Subj for S_RLong_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_Opt { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, pub a: Option<u16> }
impl Subj for S_RLong_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_OOpt { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_RLong_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_ONum { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(optional)] pub a: u64 }
impl Subj for S_RLong_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_OVec { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_RLong_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_Skip { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(skip)] pub a: u32 }
impl Subj for S_RLong_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_RText { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_RLong_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_RNum { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_RLong_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_RLong { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_RLong_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_With { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_RLong_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_OWith { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_RLong_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_Ser { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_RLong_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_De { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_RLong_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_Val { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, pub a: Value }
impl Subj for S_RLong_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_NS { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, pub a: NS }
impl Subj for S_RLong_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_ONS { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(optional)] pub a: NS }
impl Subj for S_RLong_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_EN { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, pub a: EN }
impl Subj for S_RLong_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RLong_ORNum { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_RLong_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RLong_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RLong_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RLong_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RLong_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_u8 { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, pub a: u8 }
impl Subj for S_With_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_Str { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, pub a: String }
impl Subj for S_With_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_Opt { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, pub a: Option<u16> }
impl Subj for S_With_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_OOpt { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_With_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_ONum { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(optional)] pub a: u64 }
impl Subj for S_With_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_OVec { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_With_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_Skip { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(skip)] pub a: u32 }
impl Subj for S_With_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_RText { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_With_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_RNum { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_With_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_RLong { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_With_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_With { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_With_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_OWith { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_With_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_Ser { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_With_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_De { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_With_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_Val { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, pub a: Value }
impl Subj for S_With_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_NS { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, pub a: NS }
impl Subj for S_With_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_ONS { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(optional)] pub a: NS }
impl Subj for S_With_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_EN { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, pub a: EN }
impl Subj for S_With_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_With_ORNum { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_With_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_With_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_With_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_With_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_With_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_u8 { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, pub a: u8 }
impl Subj for S_OWith_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_Str { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, pub a: String }
impl Subj for S_OWith_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_Opt { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, pub a: Option<u16> }
impl Subj for S_OWith_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_OOpt { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_OWith_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_ONum { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(optional)] pub a: u64 }
impl Subj for S_OWith_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_OVec { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_OWith_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_Skip { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(skip)] pub a: u32 }
impl Subj for S_OWith_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_RText { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_OWith_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_RNum { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_OWith_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_RLong { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_OWith_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_With { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_OWith_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_OWith { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_OWith_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_Ser { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_OWith_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_De { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_OWith_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_Val { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, pub a: Value }
impl Subj for S_OWith_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_NS { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, pub a: NS }
impl Subj for S_OWith_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_ONS { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(optional)] pub a: NS }
impl Subj for S_OWith_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_EN { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, pub a: EN }
impl Subj for S_OWith_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWith_ORNum { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_OWith_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWith_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWith_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWith_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWith_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_u8 { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, pub a: u8 }
impl Subj for S_Ser_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_Str { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, pub a: String }
impl Subj for S_Ser_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_Opt { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, pub a: Option<u16> }
impl Subj for S_Ser_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_OOpt { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_Ser_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_ONum { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(optional)] pub a: u64 }
impl Subj for S_Ser_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_OVec { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_Ser_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_Skip { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(skip)] pub a: u32 }
impl Subj for S_Ser_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_RText { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_Ser_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_RNum { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_Ser_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_RLong { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_Ser_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_With { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_Ser_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_OWith { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_Ser_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_Ser { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_Ser_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_De { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_Ser_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_Val { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, pub a: Value }
impl Subj for S_Ser_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_NS { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, pub a: NS }
impl Subj for S_Ser_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_ONS { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(optional)] pub a: NS }
impl Subj for S_Ser_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_EN { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, pub a: EN }
impl Subj for S_Ser_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Ser_ORNum { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_Ser_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Ser_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Ser_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Ser_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Ser_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_u8 { #[cbor(deserialize_with = "de_inc")] pub bb: u8, pub a: u8 }
impl Subj for S_De_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_Str { #[cbor(deserialize_with = "de_inc")] pub bb: u8, pub a: String }
impl Subj for S_De_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_Opt { #[cbor(deserialize_with = "de_inc")] pub bb: u8, pub a: Option<u16> }
impl Subj for S_De_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_OOpt { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_De_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_ONum { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(optional)] pub a: u64 }
impl Subj for S_De_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_OVec { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_De_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_Skip { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(skip)] pub a: u32 }
impl Subj for S_De_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_RText { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_De_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_RNum { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_De_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_RLong { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_De_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_With { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_De_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_OWith { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_De_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_Ser { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_De_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_De { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_De_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_Val { #[cbor(deserialize_with = "de_inc")] pub bb: u8, pub a: Value }
impl Subj for S_De_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_NS { #[cbor(deserialize_with = "de_inc")] pub bb: u8, pub a: NS }
impl Subj for S_De_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_ONS { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(optional)] pub a: NS }
impl Subj for S_De_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_EN { #[cbor(deserialize_with = "de_inc")] pub bb: u8, pub a: EN }
impl Subj for S_De_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_De_ORNum { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_De_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_De_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_De_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_De_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_De_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_u8 { pub bb: Value, pub a: u8 }
impl Subj for S_Val_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_Str { pub bb: Value, pub a: String }
impl Subj for S_Val_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_Opt { pub bb: Value, pub a: Option<u16> }
impl Subj for S_Val_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_OOpt { pub bb: Value, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_Val_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_ONum { pub bb: Value, #[cbor(optional)] pub a: u64 }
impl Subj for S_Val_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_OVec { pub bb: Value, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_Val_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_Skip { pub bb: Value, #[cbor(skip)] pub a: u32 }
impl Subj for S_Val_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_RText { pub bb: Value, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_Val_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_RNum { pub bb: Value, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_Val_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_RLong { pub bb: Value, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_Val_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_With { pub bb: Value, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_Val_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_OWith { pub bb: Value, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_Val_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_Ser { pub bb: Value, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_Val_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_De { pub bb: Value, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_Val_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_Val { pub bb: Value, pub a: Value }
impl Subj for S_Val_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_NS { pub bb: Value, pub a: NS }
impl Subj for S_Val_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_ONS { pub bb: Value, #[cbor(optional)] pub a: NS }
impl Subj for S_Val_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_EN { pub bb: Value, pub a: EN }
impl Subj for S_Val_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Val_ORNum { pub bb: Value, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_Val_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Val_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Val_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Val_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Val_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_u8 { pub bb: NS, pub a: u8 }
impl Subj for S_NS_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_Str { pub bb: NS, pub a: String }
impl Subj for S_NS_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_Opt { pub bb: NS, pub a: Option<u16> }
impl Subj for S_NS_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_OOpt { pub bb: NS, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_NS_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_ONum { pub bb: NS, #[cbor(optional)] pub a: u64 }
impl Subj for S_NS_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_OVec { pub bb: NS, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_NS_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_Skip { pub bb: NS, #[cbor(skip)] pub a: u32 }
impl Subj for S_NS_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_RText { pub bb: NS, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_NS_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_RNum { pub bb: NS, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_NS_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_RLong { pub bb: NS, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_NS_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_With { pub bb: NS, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_NS_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_OWith { pub bb: NS, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_NS_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_Ser { pub bb: NS, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_NS_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_De { pub bb: NS, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_NS_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_Val { pub bb: NS, pub a: Value }
impl Subj for S_NS_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_NS { pub bb: NS, pub a: NS }
impl Subj for S_NS_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_ONS { pub bb: NS, #[cbor(optional)] pub a: NS }
impl Subj for S_NS_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_EN { pub bb: NS, pub a: EN }
impl Subj for S_NS_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_NS_ORNum { pub bb: NS, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_NS_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_NS_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_NS_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_NS_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_NS_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_u8 { #[cbor(optional)] pub bb: NS, pub a: u8 }
impl Subj for S_ONS_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_Str { #[cbor(optional)] pub bb: NS, pub a: String }
impl Subj for S_ONS_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_Opt { #[cbor(optional)] pub bb: NS, pub a: Option<u16> }
impl Subj for S_ONS_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_OOpt { #[cbor(optional)] pub bb: NS, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_ONS_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_ONum { #[cbor(optional)] pub bb: NS, #[cbor(optional)] pub a: u64 }
impl Subj for S_ONS_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_OVec { #[cbor(optional)] pub bb: NS, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_ONS_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_Skip { #[cbor(optional)] pub bb: NS, #[cbor(skip)] pub a: u32 }
impl Subj for S_ONS_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_RText { #[cbor(optional)] pub bb: NS, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_ONS_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_RNum { #[cbor(optional)] pub bb: NS, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_ONS_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_RLong { #[cbor(optional)] pub bb: NS, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_ONS_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_With { #[cbor(optional)] pub bb: NS, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_ONS_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_OWith { #[cbor(optional)] pub bb: NS, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_ONS_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_Ser { #[cbor(optional)] pub bb: NS, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_ONS_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_De { #[cbor(optional)] pub bb: NS, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_ONS_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_Val { #[cbor(optional)] pub bb: NS, pub a: Value }
impl Subj for S_ONS_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_NS { #[cbor(optional)] pub bb: NS, pub a: NS }
impl Subj for S_ONS_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_ONS { #[cbor(optional)] pub bb: NS, #[cbor(optional)] pub a: NS }
impl Subj for S_ONS_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_EN { #[cbor(optional)] pub bb: NS, pub a: EN }
impl Subj for S_ONS_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ONS_ORNum { #[cbor(optional)] pub bb: NS, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_ONS_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ONS_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ONS_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ONS_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ONS_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_u8 { pub bb: EN, pub a: u8 }
impl Subj for S_EN_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_Str { pub bb: EN, pub a: String }
impl Subj for S_EN_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_Opt { pub bb: EN, pub a: Option<u16> }
impl Subj for S_EN_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_OOpt { pub bb: EN, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_EN_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_ONum { pub bb: EN, #[cbor(optional)] pub a: u64 }
impl Subj for S_EN_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_OVec { pub bb: EN, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_EN_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_Skip { pub bb: EN, #[cbor(skip)] pub a: u32 }
impl Subj for S_EN_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_RText { pub bb: EN, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_EN_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_RNum { pub bb: EN, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_EN_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_RLong { pub bb: EN, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_EN_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_With { pub bb: EN, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_EN_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_OWith { pub bb: EN, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_EN_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_Ser { pub bb: EN, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_EN_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_De { pub bb: EN, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_EN_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_Val { pub bb: EN, pub a: Value }
impl Subj for S_EN_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_NS { pub bb: EN, pub a: NS }
impl Subj for S_EN_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_ONS { pub bb: EN, #[cbor(optional)] pub a: NS }
impl Subj for S_EN_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_EN { pub bb: EN, pub a: EN }
impl Subj for S_EN_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_EN_ORNum { pub bb: EN, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_EN_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_EN_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_EN_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_EN_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_EN_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_u8 { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, pub a: u8 }
impl Subj for S_ORNum_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_Str { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, pub a: String }
impl Subj for S_ORNum_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_Opt { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, pub a: Option<u16> }
impl Subj for S_ORNum_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_OOpt { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_ORNum_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_ONum { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(optional)] pub a: u64 }
impl Subj for S_ORNum_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_OVec { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_ORNum_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_Skip { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(skip)] pub a: u32 }
impl Subj for S_ORNum_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_RText { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_ORNum_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_RNum { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_ORNum_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_RLong { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_ORNum_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_With { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_ORNum_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_OWith { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_ORNum_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_Ser { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_ORNum_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_De { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_ORNum_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_Val { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, pub a: Value }
impl Subj for S_ORNum_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_NS { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, pub a: NS }
impl Subj for S_ORNum_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_ONS { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(optional)] pub a: NS }
impl Subj for S_ORNum_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_EN { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, pub a: EN }
impl Subj for S_ORNum_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ORNum_ORNum { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_ORNum_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ORNum_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ORNum_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ORNum_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ORNum_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_u8_u8 { pub bb: u8, pub a: u8 }
impl Subj for L_u8_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_u8_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_u8_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_u8_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_u8_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_u8_u8 { pub bb: u8, pub a: u8 }
impl Subj for Y_u8_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_u8_u8".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_u8_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_u8_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_u8_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_u8_u8(pub u8, pub u8);
impl Subj for T_u8_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_u8_u8".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_u8_u8(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_u8_u8(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_u8_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_u8_OOpt { pub bb: u8, #[cbor(optional)] pub a: Option<u8> }
impl Subj for L_u8_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_u8_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_u8_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_u8_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_u8_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_u8_OOpt { pub bb: u8, #[cbor(optional)] pub a: Option<u8> }
impl Subj for Y_u8_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_u8_OOpt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_u8_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_u8_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_u8_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_u8_OOpt(pub u8, #[cbor(optional)] pub Option<u8>);
impl Subj for T_u8_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_u8_OOpt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_u8_OOpt(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_u8_OOpt(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_u8_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_u8_Skip { pub bb: u8, #[cbor(skip)] pub a: u32 }
impl Subj for L_u8_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_u8_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_u8_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_u8_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_u8_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_u8_Skip { pub bb: u8, #[cbor(skip)] pub a: u32 }
impl Subj for Y_u8_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_u8_Skip".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_u8_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_u8_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_u8_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_u8_Skip(pub u8, #[cbor(skip)] pub u32);
impl Subj for T_u8_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_u8_Skip".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_u8_Skip(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_u8_Skip(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_u8_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_u8_RLong { pub bb: u8, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for L_u8_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_u8_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_u8_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_u8_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_u8_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_u8_RLong { pub bb: u8, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for Y_u8_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_u8_RLong".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_u8_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_u8_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_u8_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_u8_RLong(pub u8, #[cbor(rename = "a_field_name_of_at_least")] pub bool);
impl Subj for T_u8_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_u8_RLong".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_u8_RLong(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_u8_RLong(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_u8_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_u8_Ser { pub bb: u8, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for L_u8_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_u8_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_u8_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_u8_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_u8_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_u8_Ser { pub bb: u8, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for Y_u8_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_u8_Ser".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_u8_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_u8_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_u8_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_u8_Ser(pub u8, #[cbor(serialize_with = "ser_clamp")] pub u8);
impl Subj for T_u8_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_u8_Ser".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_u8_Ser(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_u8_Ser(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_u8_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_u8_NS { pub bb: u8, pub a: NS }
impl Subj for L_u8_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_u8_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_u8_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_u8_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_u8_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_u8_NS { pub bb: u8, pub a: NS }
impl Subj for Y_u8_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_u8_NS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_u8_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_u8_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_u8_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_u8_NS(pub u8, pub NS);
impl Subj for T_u8_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_u8_NS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_u8_NS(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_u8_NS(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_u8_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_u8_ORNum { pub bb: u8, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for L_u8_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_u8_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_u8_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_u8_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_u8_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Str_Str { pub bb: String, pub a: String }
impl Subj for Y_Str_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Str_Str".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Str_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Str_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Str_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Str_Str(pub String, pub String);
impl Subj for T_Str_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <String as Subj>::ty()), fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Str_Str".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Str_Str(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Str_Str(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Str_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Str_Opt { pub bb: String, pub a: Option<u16> }
impl Subj for L_Str_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Str_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Str_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Str_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Str_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Str_ONum { pub bb: String, #[cbor(optional)] pub a: u64 }
impl Subj for Y_Str_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Str_ONum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Str_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Str_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Str_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Str_ONum(pub String, #[cbor(optional)] pub u64);
impl Subj for T_Str_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <String as Subj>::ty()), fld(NULL, <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Str_ONum".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Str_ONum(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Str_ONum(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Str_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Str_OVec { pub bb: String, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for L_Str_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Str_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Str_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Str_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Str_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Str_RText { pub bb: String, #[cbor(rename = "")] pub a: i8 }
impl Subj for Y_Str_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Str_RText".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Str_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Str_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Str_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Str_RText(pub String, #[cbor(rename = "")] pub i8);
impl Subj for T_Str_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <String as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Str_RText".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Str_RText(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Str_RText(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Str_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Str_RNum { pub bb: String, #[cbor(rename = 300)] pub a: i16 }
impl Subj for L_Str_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Str_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Str_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Str_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Str_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Str_With { pub bb: String, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for Y_Str_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Str_With".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Str_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Str_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Str_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Str_With(pub String, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16);
impl Subj for T_Str_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <String as Subj>::ty()), fld(NULL, <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Str_With".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Str_With(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Str_With(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Str_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Str_OWith { pub bb: String, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for L_Str_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Str_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Str_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Str_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Str_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Str_De { pub bb: String, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for Y_Str_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Str_De".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Str_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Str_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Str_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Str_De(pub String, #[cbor(deserialize_with = "de_inc")] pub u8);
impl Subj for T_Str_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <String as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Str_De".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Str_De(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Str_De(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Str_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Str_Val { pub bb: String, pub a: Value }
impl Subj for L_Str_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Str_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Str_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Str_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Str_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Str_ONS { pub bb: String, #[cbor(optional)] pub a: NS }
impl Subj for Y_Str_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Str_ONS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Str_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Str_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Str_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Str_ONS(pub String, #[cbor(optional)] pub NS);
impl Subj for T_Str_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <String as Subj>::ty()), fld(NULL, <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Str_ONS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Str_ONS(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Str_ONS(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Str_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Str_EN { pub bb: String, pub a: EN }
impl Subj for L_Str_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Str_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Str_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Str_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Str_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Opt_Str { pub bb: Option<u16>, pub a: String }
impl Subj for L_Opt_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Opt_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Opt_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Opt_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Opt_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Opt_Opt { pub bb: Option<u16>, pub a: Option<u16> }
impl Subj for Y_Opt_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Opt_Opt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Opt_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Opt_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Opt_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Opt_Opt(pub Option<u16>, pub Option<u16>);
impl Subj for T_Opt_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u16> as Subj>::ty()), fld(NULL, <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Opt_Opt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Opt_Opt(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Opt_Opt(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Opt_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Opt_ONum { pub bb: Option<u16>, #[cbor(optional)] pub a: u64 }
impl Subj for L_Opt_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Opt_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Opt_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Opt_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Opt_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Opt_RText { pub bb: Option<u16>, #[cbor(rename = "")] pub a: i8 }
impl Subj for L_Opt_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Opt_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Opt_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Opt_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Opt_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Opt_RNum { pub bb: Option<u16>, #[cbor(rename = 300)] pub a: i16 }
impl Subj for Y_Opt_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Opt_RNum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Opt_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Opt_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Opt_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Opt_RNum(pub Option<u16>, #[cbor(rename = 300)] pub i16);
impl Subj for T_Opt_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u16> as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Opt_RNum".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Opt_RNum(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Opt_RNum(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Opt_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Opt_With { pub bb: Option<u16>, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for L_Opt_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Opt_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Opt_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Opt_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Opt_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Opt_OWith { pub bb: Option<u16>, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for Y_Opt_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Opt_OWith".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Opt_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Opt_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Opt_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Opt_OWith(pub Option<u16>, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16);
impl Subj for T_Opt_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u16> as Subj>::ty()), fld(NULL, <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Opt_OWith".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Opt_OWith(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Opt_OWith(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Opt_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Opt_De { pub bb: Option<u16>, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for L_Opt_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Opt_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Opt_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Opt_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Opt_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Opt_Val { pub bb: Option<u16>, pub a: Value }
impl Subj for Y_Opt_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Opt_Val".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Opt_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Opt_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Opt_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Opt_Val(pub Option<u16>, pub Value);
impl Subj for T_Opt_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u16> as Subj>::ty()), fld(NULL, <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Opt_Val".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Opt_Val(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Opt_Val(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Opt_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Opt_ONS { pub bb: Option<u16>, #[cbor(optional)] pub a: NS }
impl Subj for L_Opt_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Opt_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Opt_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Opt_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Opt_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Opt_EN { pub bb: Option<u16>, pub a: EN }
impl Subj for Y_Opt_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Opt_EN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Opt_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Opt_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Opt_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Opt_EN(pub Option<u16>, pub EN);
impl Subj for T_Opt_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u16> as Subj>::ty()), fld(NULL, <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Opt_EN".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Opt_EN(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Opt_EN(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Opt_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OOpt_u8 { #[cbor(optional)] pub bb: Option<u8>, pub a: u8 }
impl Subj for L_OOpt_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OOpt_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OOpt_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OOpt_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OOpt_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OOpt_u8 { #[cbor(optional)] pub bb: Option<u8>, pub a: u8 }
impl Subj for Y_OOpt_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OOpt_u8".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OOpt_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OOpt_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_OOpt_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OOpt_u8(#[cbor(optional)] pub Option<u8>, pub u8);
impl Subj for T_OOpt_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u8> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OOpt_u8".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OOpt_u8(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OOpt_u8(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_OOpt_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OOpt_OOpt { #[cbor(optional)] pub bb: Option<u8>, #[cbor(optional)] pub a: Option<u8> }
impl Subj for L_OOpt_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OOpt_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OOpt_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OOpt_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OOpt_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OOpt_OOpt { #[cbor(optional)] pub bb: Option<u8>, #[cbor(optional)] pub a: Option<u8> }
impl Subj for Y_OOpt_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OOpt_OOpt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OOpt_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OOpt_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_OOpt_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OOpt_OOpt(#[cbor(optional)] pub Option<u8>, #[cbor(optional)] pub Option<u8>);
impl Subj for T_OOpt_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u8> as Subj>::ty()).opt(), fld(NULL, <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OOpt_OOpt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OOpt_OOpt(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OOpt_OOpt(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_OOpt_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OOpt_Skip { #[cbor(optional)] pub bb: Option<u8>, #[cbor(skip)] pub a: u32 }
impl Subj for L_OOpt_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OOpt_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OOpt_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OOpt_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OOpt_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OOpt_Skip { #[cbor(optional)] pub bb: Option<u8>, #[cbor(skip)] pub a: u32 }
impl Subj for Y_OOpt_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OOpt_Skip".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OOpt_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OOpt_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_OOpt_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OOpt_Skip(#[cbor(optional)] pub Option<u8>, #[cbor(skip)] pub u32);
impl Subj for T_OOpt_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u8> as Subj>::ty()).opt(), fld(NULL, <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OOpt_Skip".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OOpt_Skip(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OOpt_Skip(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_OOpt_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OOpt_RLong { #[cbor(optional)] pub bb: Option<u8>, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for L_OOpt_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OOpt_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OOpt_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OOpt_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OOpt_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OOpt_RLong { #[cbor(optional)] pub bb: Option<u8>, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for Y_OOpt_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OOpt_RLong".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OOpt_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OOpt_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_OOpt_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OOpt_RLong(#[cbor(optional)] pub Option<u8>, #[cbor(rename = "a_field_name_of_at_least")] pub bool);
impl Subj for T_OOpt_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u8> as Subj>::ty()).opt(), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OOpt_RLong".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OOpt_RLong(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OOpt_RLong(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_OOpt_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OOpt_Ser { #[cbor(optional)] pub bb: Option<u8>, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for L_OOpt_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OOpt_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OOpt_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OOpt_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OOpt_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OOpt_Ser { #[cbor(optional)] pub bb: Option<u8>, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for Y_OOpt_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OOpt_Ser".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OOpt_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OOpt_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_OOpt_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OOpt_Ser(#[cbor(optional)] pub Option<u8>, #[cbor(serialize_with = "ser_clamp")] pub u8);
impl Subj for T_OOpt_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u8> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OOpt_Ser".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OOpt_Ser(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OOpt_Ser(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_OOpt_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OOpt_NS { #[cbor(optional)] pub bb: Option<u8>, pub a: NS }
impl Subj for L_OOpt_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OOpt_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OOpt_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OOpt_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OOpt_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OOpt_NS { #[cbor(optional)] pub bb: Option<u8>, pub a: NS }
impl Subj for Y_OOpt_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OOpt_NS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OOpt_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OOpt_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_OOpt_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OOpt_NS(#[cbor(optional)] pub Option<u8>, pub NS);
impl Subj for T_OOpt_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u8> as Subj>::ty()).opt(), fld(NULL, <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OOpt_NS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OOpt_NS(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OOpt_NS(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_OOpt_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OOpt_ORNum { #[cbor(optional)] pub bb: Option<u8>, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for L_OOpt_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OOpt_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OOpt_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OOpt_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OOpt_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONum_Str { #[cbor(optional)] pub bb: u64, pub a: String }
impl Subj for Y_ONum_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONum_Str".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONum_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONum_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_ONum_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONum_Str(#[cbor(optional)] pub u64, pub String);
impl Subj for T_ONum_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u64 as Subj>::ty()).opt(), fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONum_Str".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONum_Str(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONum_Str(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_ONum_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONum_Opt { #[cbor(optional)] pub bb: u64, pub a: Option<u16> }
impl Subj for L_ONum_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONum_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONum_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONum_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONum_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONum_ONum { #[cbor(optional)] pub bb: u64, #[cbor(optional)] pub a: u64 }
impl Subj for Y_ONum_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONum_ONum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONum_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONum_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_ONum_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONum_ONum(#[cbor(optional)] pub u64, #[cbor(optional)] pub u64);
impl Subj for T_ONum_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u64 as Subj>::ty()).opt(), fld(NULL, <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONum_ONum".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONum_ONum(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONum_ONum(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_ONum_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONum_OVec { #[cbor(optional)] pub bb: u64, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for L_ONum_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONum_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONum_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONum_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONum_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONum_RText { #[cbor(optional)] pub bb: u64, #[cbor(rename = "")] pub a: i8 }
impl Subj for Y_ONum_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONum_RText".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONum_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONum_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_ONum_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONum_RText(#[cbor(optional)] pub u64, #[cbor(rename = "")] pub i8);
impl Subj for T_ONum_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u64 as Subj>::ty()).opt(), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONum_RText".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONum_RText(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONum_RText(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_ONum_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONum_RNum { #[cbor(optional)] pub bb: u64, #[cbor(rename = 300)] pub a: i16 }
impl Subj for L_ONum_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONum_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONum_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONum_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONum_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONum_With { #[cbor(optional)] pub bb: u64, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for Y_ONum_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONum_With".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONum_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONum_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_ONum_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONum_With(#[cbor(optional)] pub u64, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16);
impl Subj for T_ONum_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u64 as Subj>::ty()).opt(), fld(NULL, <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONum_With".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONum_With(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONum_With(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_ONum_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONum_OWith { #[cbor(optional)] pub bb: u64, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for L_ONum_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONum_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONum_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONum_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONum_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONum_De { #[cbor(optional)] pub bb: u64, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for Y_ONum_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONum_De".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONum_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONum_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_ONum_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONum_De(#[cbor(optional)] pub u64, #[cbor(deserialize_with = "de_inc")] pub u8);
impl Subj for T_ONum_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u64 as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONum_De".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONum_De(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONum_De(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_ONum_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONum_Val { #[cbor(optional)] pub bb: u64, pub a: Value }
impl Subj for L_ONum_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONum_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONum_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONum_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONum_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONum_ONS { #[cbor(optional)] pub bb: u64, #[cbor(optional)] pub a: NS }
impl Subj for Y_ONum_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONum_ONS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONum_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONum_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_ONum_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONum_ONS(#[cbor(optional)] pub u64, #[cbor(optional)] pub NS);
impl Subj for T_ONum_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u64 as Subj>::ty()).opt(), fld(NULL, <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONum_ONS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONum_ONS(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONum_ONS(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_ONum_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONum_EN { #[cbor(optional)] pub bb: u64, pub a: EN }
impl Subj for L_ONum_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONum_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONum_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONum_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONum_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OVec_Str { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, pub a: String }
impl Subj for L_OVec_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OVec_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OVec_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OVec_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OVec_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OVec_ONum { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(optional)] pub a: u64 }
impl Subj for L_OVec_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OVec_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OVec_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OVec_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OVec_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OVec_RText { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(rename = "")] pub a: i8 }
impl Subj for L_OVec_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OVec_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OVec_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OVec_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OVec_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OVec_With { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for L_OVec_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OVec_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OVec_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OVec_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OVec_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OVec_De { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for L_OVec_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OVec_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OVec_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OVec_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OVec_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OVec_ONS { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(optional)] pub a: NS }
impl Subj for L_OVec_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OVec_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OVec_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OVec_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OVec_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Skip_u8 { #[cbor(skip)] pub bb: u32, pub a: u8 }
impl Subj for L_Skip_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Skip_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Skip_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Skip_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Skip_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Skip_u8 { #[cbor(skip)] pub bb: u32, pub a: u8 }
impl Subj for Y_Skip_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Skip_u8".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Skip_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Skip_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Skip_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Skip_u8(#[cbor(skip)] pub u32, pub u8);
impl Subj for T_Skip_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Skip_u8".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Skip_u8(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Skip_u8(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Skip_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Skip_OOpt { #[cbor(skip)] pub bb: u32, #[cbor(optional)] pub a: Option<u8> }
impl Subj for L_Skip_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Skip_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Skip_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Skip_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Skip_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Skip_OOpt { #[cbor(skip)] pub bb: u32, #[cbor(optional)] pub a: Option<u8> }
impl Subj for Y_Skip_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Skip_OOpt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Skip_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Skip_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Skip_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Skip_OOpt(#[cbor(skip)] pub u32, #[cbor(optional)] pub Option<u8>);
impl Subj for T_Skip_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Skip_OOpt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Skip_OOpt(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Skip_OOpt(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Skip_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Skip_Skip { #[cbor(skip)] pub bb: u32, #[cbor(skip)] pub a: u32 }
impl Subj for L_Skip_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Skip_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Skip_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Skip_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Skip_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Skip_Skip { #[cbor(skip)] pub bb: u32, #[cbor(skip)] pub a: u32 }
impl Subj for Y_Skip_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Skip_Skip".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Skip_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Skip_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Skip_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Skip_Skip(#[cbor(skip)] pub u32, #[cbor(skip)] pub u32);
impl Subj for T_Skip_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Skip_Skip".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Skip_Skip(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Skip_Skip(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Skip_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Skip_RLong { #[cbor(skip)] pub bb: u32, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for L_Skip_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Skip_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Skip_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Skip_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Skip_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Skip_RLong { #[cbor(skip)] pub bb: u32, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for Y_Skip_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Skip_RLong".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Skip_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Skip_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Skip_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Skip_RLong(#[cbor(skip)] pub u32, #[cbor(rename = "a_field_name_of_at_least")] pub bool);
impl Subj for T_Skip_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u32 as Subj>::ty()).skipped(), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Skip_RLong".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Skip_RLong(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Skip_RLong(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Skip_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Skip_Ser { #[cbor(skip)] pub bb: u32, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for L_Skip_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Skip_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Skip_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Skip_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Skip_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Skip_Ser { #[cbor(skip)] pub bb: u32, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for Y_Skip_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Skip_Ser".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Skip_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Skip_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Skip_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Skip_Ser(#[cbor(skip)] pub u32, #[cbor(serialize_with = "ser_clamp")] pub u8);
impl Subj for T_Skip_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Skip_Ser".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Skip_Ser(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Skip_Ser(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Skip_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Skip_NS { #[cbor(skip)] pub bb: u32, pub a: NS }
impl Subj for L_Skip_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Skip_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Skip_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Skip_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Skip_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Skip_NS { #[cbor(skip)] pub bb: u32, pub a: NS }
impl Subj for Y_Skip_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Skip_NS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Skip_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Skip_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Skip_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Skip_NS(#[cbor(skip)] pub u32, pub NS);
impl Subj for T_Skip_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Skip_NS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Skip_NS(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Skip_NS(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Skip_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Skip_ORNum { #[cbor(skip)] pub bb: u32, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for L_Skip_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Skip_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Skip_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Skip_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Skip_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RText_Str { #[cbor(rename = "q")] pub bb: i8, pub a: String }
impl Subj for Y_RText_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RText_Str".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RText_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RText_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RText_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RText_Str(#[cbor(rename = "q")] pub i8, pub String);
impl Subj for T_RText_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RText_Str".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RText_Str(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RText_Str(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RText_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RText_Opt { #[cbor(rename = "q")] pub bb: i8, pub a: Option<u16> }
impl Subj for L_RText_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RText_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RText_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RText_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RText_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RText_ONum { #[cbor(rename = "q")] pub bb: i8, #[cbor(optional)] pub a: u64 }
impl Subj for Y_RText_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RText_ONum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RText_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RText_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RText_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RText_ONum(#[cbor(rename = "q")] pub i8, #[cbor(optional)] pub u64);
impl Subj for T_RText_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(NULL, <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RText_ONum".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RText_ONum(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RText_ONum(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RText_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RText_OVec { #[cbor(rename = "q")] pub bb: i8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for L_RText_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RText_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RText_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RText_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RText_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RText_RText { #[cbor(rename = "q")] pub bb: i8, #[cbor(rename = "")] pub a: i8 }
impl Subj for Y_RText_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RText_RText".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RText_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RText_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RText_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RText_RText(#[cbor(rename = "q")] pub i8, #[cbor(rename = "")] pub i8);
impl Subj for T_RText_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RText_RText".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RText_RText(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RText_RText(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RText_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RText_RNum { #[cbor(rename = "q")] pub bb: i8, #[cbor(rename = 300)] pub a: i16 }
impl Subj for L_RText_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RText_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RText_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RText_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RText_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RText_With { #[cbor(rename = "q")] pub bb: i8, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for Y_RText_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RText_With".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RText_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RText_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RText_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RText_With(#[cbor(rename = "q")] pub i8, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16);
impl Subj for T_RText_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(NULL, <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RText_With".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RText_With(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RText_With(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RText_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RText_OWith { #[cbor(rename = "q")] pub bb: i8, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for L_RText_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RText_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RText_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RText_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RText_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RText_De { #[cbor(rename = "q")] pub bb: i8, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for Y_RText_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RText_De".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RText_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RText_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RText_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RText_De(#[cbor(rename = "q")] pub i8, #[cbor(deserialize_with = "de_inc")] pub u8);
impl Subj for T_RText_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RText_De".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RText_De(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RText_De(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RText_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RText_Val { #[cbor(rename = "q")] pub bb: i8, pub a: Value }
impl Subj for L_RText_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RText_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RText_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RText_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RText_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RText_ONS { #[cbor(rename = "q")] pub bb: i8, #[cbor(optional)] pub a: NS }
impl Subj for Y_RText_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RText_ONS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RText_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RText_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RText_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RText_ONS(#[cbor(rename = "q")] pub i8, #[cbor(optional)] pub NS);
impl Subj for T_RText_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(NULL, <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RText_ONS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RText_ONS(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RText_ONS(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RText_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RText_EN { #[cbor(rename = "q")] pub bb: i8, pub a: EN }
impl Subj for L_RText_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RText_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RText_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RText_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RText_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RNum_Str { #[cbor(rename = 7)] pub bb: i16, pub a: String }
impl Subj for L_RNum_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RNum_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RNum_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RNum_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RNum_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RNum_Opt { #[cbor(rename = 7)] pub bb: i16, pub a: Option<u16> }
impl Subj for Y_RNum_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RNum_Opt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RNum_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RNum_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RNum_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RNum_Opt(#[cbor(rename = 7)] pub i16, pub Option<u16>);
impl Subj for T_RNum_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(NULL, <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RNum_Opt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RNum_Opt(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RNum_Opt(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RNum_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RNum_ONum { #[cbor(rename = 7)] pub bb: i16, #[cbor(optional)] pub a: u64 }
impl Subj for L_RNum_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RNum_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RNum_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RNum_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RNum_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RNum_RText { #[cbor(rename = 7)] pub bb: i16, #[cbor(rename = "")] pub a: i8 }
impl Subj for L_RNum_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RNum_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RNum_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RNum_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RNum_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RNum_RNum { #[cbor(rename = 7)] pub bb: i16, #[cbor(rename = 300)] pub a: i16 }
impl Subj for Y_RNum_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RNum_RNum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RNum_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RNum_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RNum_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RNum_RNum(#[cbor(rename = 7)] pub i16, #[cbor(rename = 300)] pub i16);
impl Subj for T_RNum_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RNum_RNum".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RNum_RNum(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RNum_RNum(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RNum_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RNum_With { #[cbor(rename = 7)] pub bb: i16, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for L_RNum_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RNum_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RNum_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RNum_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RNum_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RNum_OWith { #[cbor(rename = 7)] pub bb: i16, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for Y_RNum_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RNum_OWith".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RNum_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RNum_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RNum_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RNum_OWith(#[cbor(rename = 7)] pub i16, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16);
impl Subj for T_RNum_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(NULL, <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RNum_OWith".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RNum_OWith(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RNum_OWith(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RNum_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RNum_De { #[cbor(rename = 7)] pub bb: i16, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for L_RNum_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RNum_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RNum_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RNum_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RNum_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RNum_Val { #[cbor(rename = 7)] pub bb: i16, pub a: Value }
impl Subj for Y_RNum_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RNum_Val".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RNum_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RNum_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RNum_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RNum_Val(#[cbor(rename = 7)] pub i16, pub Value);
impl Subj for T_RNum_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(NULL, <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RNum_Val".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RNum_Val(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RNum_Val(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RNum_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RNum_ONS { #[cbor(rename = 7)] pub bb: i16, #[cbor(optional)] pub a: NS }
impl Subj for L_RNum_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RNum_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RNum_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RNum_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RNum_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RNum_EN { #[cbor(rename = 7)] pub bb: i16, pub a: EN }
impl Subj for Y_RNum_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RNum_EN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RNum_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RNum_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RNum_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RNum_EN(#[cbor(rename = 7)] pub i16, pub EN);
impl Subj for T_RNum_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(NULL, <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RNum_EN".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RNum_EN(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RNum_EN(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RNum_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RLong_u8 { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, pub a: u8 }
impl Subj for L_RLong_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RLong_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RLong_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RLong_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RLong_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RLong_u8 { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, pub a: u8 }
impl Subj for Y_RLong_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RLong_u8".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RLong_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RLong_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RLong_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RLong_u8(#[cbor(rename = "a_field_name_of_at_leas")] pub bool, pub u8);
impl Subj for T_RLong_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RLong_u8".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RLong_u8(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RLong_u8(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RLong_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RLong_OOpt { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(optional)] pub a: Option<u8> }
impl Subj for L_RLong_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RLong_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RLong_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RLong_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RLong_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RLong_OOpt { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(optional)] pub a: Option<u8> }
impl Subj for Y_RLong_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RLong_OOpt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RLong_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RLong_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RLong_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RLong_OOpt(#[cbor(rename = "a_field_name_of_at_leas")] pub bool, #[cbor(optional)] pub Option<u8>);
impl Subj for T_RLong_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(NULL, <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RLong_OOpt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RLong_OOpt(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RLong_OOpt(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RLong_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RLong_Skip { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(skip)] pub a: u32 }
impl Subj for L_RLong_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RLong_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RLong_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RLong_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RLong_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RLong_Skip { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(skip)] pub a: u32 }
impl Subj for Y_RLong_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RLong_Skip".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RLong_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RLong_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RLong_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RLong_Skip(#[cbor(rename = "a_field_name_of_at_leas")] pub bool, #[cbor(skip)] pub u32);
impl Subj for T_RLong_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RLong_Skip".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RLong_Skip(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RLong_Skip(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RLong_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RLong_RLong { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for L_RLong_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RLong_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RLong_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RLong_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RLong_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RLong_RLong { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for Y_RLong_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RLong_RLong".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RLong_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RLong_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RLong_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RLong_RLong(#[cbor(rename = "a_field_name_of_at_leas")] pub bool, #[cbor(rename = "a_field_name_of_at_least")] pub bool);
impl Subj for T_RLong_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RLong_RLong".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RLong_RLong(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RLong_RLong(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RLong_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RLong_Ser { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for L_RLong_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RLong_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RLong_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RLong_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RLong_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RLong_Ser { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for Y_RLong_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RLong_Ser".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RLong_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RLong_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RLong_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RLong_Ser(#[cbor(rename = "a_field_name_of_at_leas")] pub bool, #[cbor(serialize_with = "ser_clamp")] pub u8);
impl Subj for T_RLong_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RLong_Ser".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RLong_Ser(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RLong_Ser(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RLong_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RLong_NS { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, pub a: NS }
impl Subj for L_RLong_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RLong_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RLong_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RLong_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RLong_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_RLong_NS { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, pub a: NS }
impl Subj for Y_RLong_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_RLong_NS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_RLong_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_RLong_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_RLong_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_RLong_NS(#[cbor(rename = "a_field_name_of_at_leas")] pub bool, pub NS);
impl Subj for T_RLong_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(NULL, <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_RLong_NS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_RLong_NS(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_RLong_NS(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_RLong_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RLong_ORNum { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for L_RLong_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RLong_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RLong_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RLong_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RLong_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_With_Str { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, pub a: String }
impl Subj for Y_With_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_With_Str".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_With_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_With_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_With_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_With_Str(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16, pub String);
impl Subj for T_With_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_With_Str".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_With_Str(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_With_Str(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_With_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_With_Opt { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, pub a: Option<u16> }
impl Subj for L_With_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_With_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_With_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_With_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_With_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_With_ONum { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(optional)] pub a: u64 }
impl Subj for Y_With_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_With_ONum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_With_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_With_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_With_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_With_ONum(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16, #[cbor(optional)] pub u64);
impl Subj for T_With_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_With_ONum".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_With_ONum(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_With_ONum(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_With_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_With_OVec { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for L_With_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_With_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_With_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_With_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_With_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_With_RText { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(rename = "")] pub a: i8 }
impl Subj for Y_With_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_With_RText".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_With_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_With_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_With_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_With_RText(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16, #[cbor(rename = "")] pub i8);
impl Subj for T_With_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_With_RText".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_With_RText(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_With_RText(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_With_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_With_RNum { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(rename = 300)] pub a: i16 }
impl Subj for L_With_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_With_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_With_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_With_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_With_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_With_With { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for Y_With_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_With_With".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_With_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_With_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_With_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_With_With(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16);
impl Subj for T_With_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_With_With".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_With_With(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_With_With(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_With_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_With_OWith { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for L_With_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_With_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_With_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_With_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_With_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_With_De { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for Y_With_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_With_De".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_With_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_With_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_With_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_With_De(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16, #[cbor(deserialize_with = "de_inc")] pub u8);
impl Subj for T_With_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_With_De".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_With_De(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_With_De(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_With_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_With_Val { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, pub a: Value }
impl Subj for L_With_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_With_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_With_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_With_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_With_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_With_ONS { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(optional)] pub a: NS }
impl Subj for Y_With_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_With_ONS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_With_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_With_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_With_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_With_ONS(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16, #[cbor(optional)] pub NS);
impl Subj for T_With_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).coded(num()), fld(NULL, <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_With_ONS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_With_ONS(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_With_ONS(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_With_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_With_EN { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, pub a: EN }
impl Subj for L_With_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_With_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_With_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_With_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_With_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OWith_Str { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, pub a: String }
impl Subj for L_OWith_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OWith_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OWith_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OWith_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OWith_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OWith_Opt { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, pub a: Option<u16> }
impl Subj for Y_OWith_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OWith_Opt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OWith_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OWith_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_OWith_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OWith_Opt(#[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16, pub Option<u16>);
impl Subj for T_OWith_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).opt().coded(pos()), fld(NULL, <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OWith_Opt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OWith_Opt(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OWith_Opt(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_OWith_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OWith_ONum { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(optional)] pub a: u64 }
impl Subj for L_OWith_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OWith_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OWith_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OWith_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OWith_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OWith_RText { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(rename = "")] pub a: i8 }
impl Subj for L_OWith_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OWith_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OWith_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OWith_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OWith_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OWith_RNum { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(rename = 300)] pub a: i16 }
impl Subj for Y_OWith_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OWith_RNum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OWith_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OWith_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_OWith_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OWith_RNum(#[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16, #[cbor(rename = 300)] pub i16);
impl Subj for T_OWith_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).opt().coded(pos()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OWith_RNum".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OWith_RNum(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OWith_RNum(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_OWith_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OWith_With { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for L_OWith_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OWith_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OWith_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OWith_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OWith_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OWith_OWith { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for Y_OWith_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OWith_OWith".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OWith_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OWith_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_OWith_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OWith_OWith(#[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16);
impl Subj for T_OWith_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).opt().coded(pos()), fld(NULL, <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OWith_OWith".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OWith_OWith(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OWith_OWith(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_OWith_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OWith_De { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for L_OWith_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OWith_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OWith_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OWith_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OWith_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OWith_Val { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, pub a: Value }
impl Subj for Y_OWith_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OWith_Val".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OWith_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OWith_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_OWith_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OWith_Val(#[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16, pub Value);
impl Subj for T_OWith_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).opt().coded(pos()), fld(NULL, <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OWith_Val".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OWith_Val(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OWith_Val(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_OWith_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OWith_ONS { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(optional)] pub a: NS }
impl Subj for L_OWith_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OWith_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OWith_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OWith_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OWith_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_OWith_EN { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, pub a: EN }
impl Subj for Y_OWith_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_OWith_EN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_OWith_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_OWith_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_OWith_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_OWith_EN(#[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16, pub EN);
impl Subj for T_OWith_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).opt().coded(pos()), fld(NULL, <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_OWith_EN".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_OWith_EN(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_OWith_EN(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_OWith_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Ser_u8 { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, pub a: u8 }
impl Subj for L_Ser_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Ser_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Ser_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Ser_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Ser_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Ser_u8 { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, pub a: u8 }
impl Subj for Y_Ser_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Ser_u8".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Ser_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Ser_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Ser_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Ser_u8(#[cbor(serialize_with = "ser_clamp")] pub u8, pub u8);
impl Subj for T_Ser_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp()), fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Ser_u8".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Ser_u8(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Ser_u8(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Ser_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Ser_OOpt { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(optional)] pub a: Option<u8> }
impl Subj for L_Ser_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Ser_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Ser_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Ser_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Ser_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Ser_OOpt { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(optional)] pub a: Option<u8> }
impl Subj for Y_Ser_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Ser_OOpt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Ser_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Ser_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Ser_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Ser_OOpt(#[cbor(serialize_with = "ser_clamp")] pub u8, #[cbor(optional)] pub Option<u8>);
impl Subj for T_Ser_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp()), fld(NULL, <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Ser_OOpt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Ser_OOpt(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Ser_OOpt(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Ser_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Ser_Skip { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(skip)] pub a: u32 }
impl Subj for L_Ser_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Ser_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Ser_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Ser_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Ser_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Ser_Skip { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(skip)] pub a: u32 }
impl Subj for Y_Ser_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Ser_Skip".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Ser_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Ser_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Ser_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Ser_Skip(#[cbor(serialize_with = "ser_clamp")] pub u8, #[cbor(skip)] pub u32);
impl Subj for T_Ser_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp()), fld(NULL, <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Ser_Skip".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Ser_Skip(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Ser_Skip(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Ser_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Ser_RLong { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for L_Ser_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Ser_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Ser_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Ser_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Ser_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Ser_RLong { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for Y_Ser_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Ser_RLong".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Ser_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Ser_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Ser_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Ser_RLong(#[cbor(serialize_with = "ser_clamp")] pub u8, #[cbor(rename = "a_field_name_of_at_least")] pub bool);
impl Subj for T_Ser_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Ser_RLong".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Ser_RLong(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Ser_RLong(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Ser_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Ser_Ser { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for L_Ser_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Ser_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Ser_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Ser_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Ser_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Ser_Ser { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for Y_Ser_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Ser_Ser".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Ser_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Ser_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Ser_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Ser_Ser(#[cbor(serialize_with = "ser_clamp")] pub u8, #[cbor(serialize_with = "ser_clamp")] pub u8);
impl Subj for T_Ser_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp()), fld(NULL, <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Ser_Ser".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Ser_Ser(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Ser_Ser(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Ser_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Ser_NS { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, pub a: NS }
impl Subj for L_Ser_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Ser_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Ser_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Ser_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Ser_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Ser_NS { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, pub a: NS }
impl Subj for Y_Ser_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Ser_NS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Ser_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Ser_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Ser_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Ser_NS(#[cbor(serialize_with = "ser_clamp")] pub u8, pub NS);
impl Subj for T_Ser_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp()), fld(NULL, <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Ser_NS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Ser_NS(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Ser_NS(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Ser_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Ser_ORNum { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for L_Ser_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Ser_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Ser_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Ser_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Ser_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_De_Str { #[cbor(deserialize_with = "de_inc")] pub bb: u8, pub a: String }
impl Subj for Y_De_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_De_Str".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_De_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_De_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_De_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_De_Str(#[cbor(deserialize_with = "de_inc")] pub u8, pub String);
impl Subj for T_De_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(inc()), fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_De_Str".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_De_Str(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_De_Str(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_De_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_De_Opt { #[cbor(deserialize_with = "de_inc")] pub bb: u8, pub a: Option<u16> }
impl Subj for L_De_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_De_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_De_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_De_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_De_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_De_ONum { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(optional)] pub a: u64 }
impl Subj for Y_De_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_De_ONum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_De_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_De_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_De_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_De_ONum(#[cbor(deserialize_with = "de_inc")] pub u8, #[cbor(optional)] pub u64);
impl Subj for T_De_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(inc()), fld(NULL, <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_De_ONum".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_De_ONum(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_De_ONum(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_De_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_De_OVec { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for L_De_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_De_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_De_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_De_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_De_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_De_RText { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(rename = "")] pub a: i8 }
impl Subj for Y_De_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_De_RText".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_De_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_De_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_De_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_De_RText(#[cbor(deserialize_with = "de_inc")] pub u8, #[cbor(rename = "")] pub i8);
impl Subj for T_De_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(inc()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_De_RText".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_De_RText(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_De_RText(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_De_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_De_RNum { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(rename = 300)] pub a: i16 }
impl Subj for L_De_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_De_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_De_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_De_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_De_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_De_With { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for Y_De_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_De_With".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_De_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_De_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_De_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_De_With(#[cbor(deserialize_with = "de_inc")] pub u8, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16);
impl Subj for T_De_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(inc()), fld(NULL, <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_De_With".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_De_With(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_De_With(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_De_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_De_OWith { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for L_De_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_De_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_De_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_De_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_De_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_De_De { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for Y_De_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_De_De".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_De_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_De_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_De_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_De_De(#[cbor(deserialize_with = "de_inc")] pub u8, #[cbor(deserialize_with = "de_inc")] pub u8);
impl Subj for T_De_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(inc()), fld(NULL, <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_De_De".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_De_De(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_De_De(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_De_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_De_Val { #[cbor(deserialize_with = "de_inc")] pub bb: u8, pub a: Value }
impl Subj for L_De_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_De_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_De_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_De_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_De_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_De_ONS { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(optional)] pub a: NS }
impl Subj for Y_De_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_De_ONS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_De_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_De_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_De_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_De_ONS(#[cbor(deserialize_with = "de_inc")] pub u8, #[cbor(optional)] pub NS);
impl Subj for T_De_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(inc()), fld(NULL, <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_De_ONS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_De_ONS(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_De_ONS(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_De_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_De_EN { #[cbor(deserialize_with = "de_inc")] pub bb: u8, pub a: EN }
impl Subj for L_De_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_De_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_De_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_De_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_De_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Val_Str { pub bb: Value, pub a: String }
impl Subj for L_Val_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Val_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Val_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Val_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Val_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Val_Opt { pub bb: Value, pub a: Option<u16> }
impl Subj for Y_Val_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Val_Opt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Val_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Val_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Val_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Val_Opt(pub Value, pub Option<u16>);
impl Subj for T_Val_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Value as Subj>::ty()), fld(NULL, <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Val_Opt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Val_Opt(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Val_Opt(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Val_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Val_ONum { pub bb: Value, #[cbor(optional)] pub a: u64 }
impl Subj for L_Val_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Val_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Val_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Val_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Val_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Val_RText { pub bb: Value, #[cbor(rename = "")] pub a: i8 }
impl Subj for L_Val_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Val_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Val_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Val_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Val_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Val_RNum { pub bb: Value, #[cbor(rename = 300)] pub a: i16 }
impl Subj for Y_Val_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Val_RNum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Val_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Val_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Val_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Val_RNum(pub Value, #[cbor(rename = 300)] pub i16);
impl Subj for T_Val_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Value as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Val_RNum".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Val_RNum(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Val_RNum(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Val_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Val_With { pub bb: Value, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for L_Val_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Val_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Val_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Val_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Val_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Val_OWith { pub bb: Value, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for Y_Val_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Val_OWith".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Val_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Val_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Val_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Val_OWith(pub Value, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16);
impl Subj for T_Val_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Value as Subj>::ty()), fld(NULL, <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Val_OWith".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Val_OWith(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Val_OWith(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Val_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Val_De { pub bb: Value, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for L_Val_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Val_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Val_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Val_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Val_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Val_Val { pub bb: Value, pub a: Value }
impl Subj for Y_Val_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Val_Val".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Val_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Val_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Val_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Val_Val(pub Value, pub Value);
impl Subj for T_Val_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Value as Subj>::ty()), fld(NULL, <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Val_Val".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Val_Val(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Val_Val(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Val_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Val_ONS { pub bb: Value, #[cbor(optional)] pub a: NS }
impl Subj for L_Val_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Val_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Val_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Val_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Val_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_Val_EN { pub bb: Value, pub a: EN }
impl Subj for Y_Val_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_Val_EN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_Val_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_Val_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_Val_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_Val_EN(pub Value, pub EN);
impl Subj for T_Val_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Value as Subj>::ty()), fld(NULL, <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_Val_EN".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_Val_EN(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_Val_EN(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_Val_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_NS_u8 { pub bb: NS, pub a: u8 }
impl Subj for L_NS_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_NS_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_NS_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_NS_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_NS_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_NS_u8 { pub bb: NS, pub a: u8 }
impl Subj for Y_NS_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_NS_u8".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_NS_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_NS_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_NS_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_NS_u8(pub NS, pub u8);
impl Subj for T_NS_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_NS_u8".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_NS_u8(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_NS_u8(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_NS_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_NS_OOpt { pub bb: NS, #[cbor(optional)] pub a: Option<u8> }
impl Subj for L_NS_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_NS_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_NS_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_NS_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_NS_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_NS_OOpt { pub bb: NS, #[cbor(optional)] pub a: Option<u8> }
impl Subj for Y_NS_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_NS_OOpt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_NS_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_NS_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_NS_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_NS_OOpt(pub NS, #[cbor(optional)] pub Option<u8>);
impl Subj for T_NS_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()), fld(NULL, <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_NS_OOpt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_NS_OOpt(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_NS_OOpt(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_NS_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_NS_Skip { pub bb: NS, #[cbor(skip)] pub a: u32 }
impl Subj for L_NS_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_NS_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_NS_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_NS_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_NS_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_NS_Skip { pub bb: NS, #[cbor(skip)] pub a: u32 }
impl Subj for Y_NS_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_NS_Skip".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_NS_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_NS_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_NS_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_NS_Skip(pub NS, #[cbor(skip)] pub u32);
impl Subj for T_NS_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_NS_Skip".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_NS_Skip(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_NS_Skip(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_NS_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_NS_RLong { pub bb: NS, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for L_NS_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_NS_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_NS_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_NS_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_NS_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_NS_RLong { pub bb: NS, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for Y_NS_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_NS_RLong".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_NS_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_NS_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_NS_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_NS_RLong(pub NS, #[cbor(rename = "a_field_name_of_at_least")] pub bool);
impl Subj for T_NS_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_NS_RLong".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_NS_RLong(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_NS_RLong(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_NS_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_NS_Ser { pub bb: NS, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for L_NS_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_NS_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_NS_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_NS_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_NS_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_NS_Ser { pub bb: NS, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for Y_NS_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_NS_Ser".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_NS_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_NS_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_NS_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_NS_Ser(pub NS, #[cbor(serialize_with = "ser_clamp")] pub u8);
impl Subj for T_NS_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_NS_Ser".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_NS_Ser(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_NS_Ser(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_NS_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_NS_NS { pub bb: NS, pub a: NS }
impl Subj for L_NS_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_NS_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_NS_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_NS_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_NS_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_NS_NS { pub bb: NS, pub a: NS }
impl Subj for Y_NS_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_NS_NS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_NS_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_NS_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_NS_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_NS_NS(pub NS, pub NS);
impl Subj for T_NS_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()), fld(NULL, <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_NS_NS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_NS_NS(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_NS_NS(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_NS_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_NS_ORNum { pub bb: NS, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for L_NS_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_NS_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_NS_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_NS_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_NS_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONS_Str { #[cbor(optional)] pub bb: NS, pub a: String }
impl Subj for Y_ONS_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONS_Str".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONS_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONS_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_ONS_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONS_Str(#[cbor(optional)] pub NS, pub String);
impl Subj for T_ONS_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()).opt(), fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONS_Str".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONS_Str(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONS_Str(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_ONS_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONS_Opt { #[cbor(optional)] pub bb: NS, pub a: Option<u16> }
impl Subj for L_ONS_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONS_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONS_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONS_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONS_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONS_ONum { #[cbor(optional)] pub bb: NS, #[cbor(optional)] pub a: u64 }
impl Subj for Y_ONS_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONS_ONum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONS_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONS_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_ONS_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONS_ONum(#[cbor(optional)] pub NS, #[cbor(optional)] pub u64);
impl Subj for T_ONS_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()).opt(), fld(NULL, <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONS_ONum".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONS_ONum(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONS_ONum(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_ONS_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONS_OVec { #[cbor(optional)] pub bb: NS, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for L_ONS_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONS_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONS_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONS_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONS_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONS_RText { #[cbor(optional)] pub bb: NS, #[cbor(rename = "")] pub a: i8 }
impl Subj for Y_ONS_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONS_RText".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONS_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONS_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_ONS_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONS_RText(#[cbor(optional)] pub NS, #[cbor(rename = "")] pub i8);
impl Subj for T_ONS_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()).opt(), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONS_RText".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONS_RText(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONS_RText(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_ONS_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONS_RNum { #[cbor(optional)] pub bb: NS, #[cbor(rename = 300)] pub a: i16 }
impl Subj for L_ONS_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONS_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONS_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONS_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONS_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONS_With { #[cbor(optional)] pub bb: NS, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for Y_ONS_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONS_With".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONS_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONS_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_ONS_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONS_With(#[cbor(optional)] pub NS, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16);
impl Subj for T_ONS_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()).opt(), fld(NULL, <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONS_With".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONS_With(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONS_With(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_ONS_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONS_OWith { #[cbor(optional)] pub bb: NS, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for L_ONS_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONS_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONS_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONS_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONS_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONS_De { #[cbor(optional)] pub bb: NS, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for Y_ONS_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONS_De".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONS_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONS_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_ONS_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONS_De(#[cbor(optional)] pub NS, #[cbor(deserialize_with = "de_inc")] pub u8);
impl Subj for T_ONS_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONS_De".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONS_De(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONS_De(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_ONS_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONS_Val { #[cbor(optional)] pub bb: NS, pub a: Value }
impl Subj for L_ONS_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONS_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONS_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONS_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONS_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_ONS_ONS { #[cbor(optional)] pub bb: NS, #[cbor(optional)] pub a: NS }
impl Subj for Y_ONS_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_ONS_ONS".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_ONS_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_ONS_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_ONS_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_ONS_ONS(#[cbor(optional)] pub NS, #[cbor(optional)] pub NS);
impl Subj for T_ONS_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()).opt(), fld(NULL, <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_ONS_ONS".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_ONS_ONS(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_ONS_ONS(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_ONS_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONS_EN { #[cbor(optional)] pub bb: NS, pub a: EN }
impl Subj for L_ONS_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONS_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONS_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONS_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONS_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_EN_Str { pub bb: EN, pub a: String }
impl Subj for L_EN_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_EN_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_EN_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_EN_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_EN_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_EN_Opt { pub bb: EN, pub a: Option<u16> }
impl Subj for Y_EN_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_EN_Opt".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_EN_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_EN_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_EN_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_EN_Opt(pub EN, pub Option<u16>);
impl Subj for T_EN_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <EN as Subj>::ty()), fld(NULL, <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_EN_Opt".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_EN_Opt(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_EN_Opt(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_EN_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_EN_ONum { pub bb: EN, #[cbor(optional)] pub a: u64 }
impl Subj for L_EN_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_EN_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_EN_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_EN_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_EN_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_EN_RText { pub bb: EN, #[cbor(rename = "")] pub a: i8 }
impl Subj for L_EN_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_EN_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_EN_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_EN_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_EN_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_EN_RNum { pub bb: EN, #[cbor(rename = 300)] pub a: i16 }
impl Subj for Y_EN_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_EN_RNum".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_EN_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_EN_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_EN_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_EN_RNum(pub EN, #[cbor(rename = 300)] pub i16);
impl Subj for T_EN_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <EN as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_EN_RNum".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_EN_RNum(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_EN_RNum(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_EN_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_EN_With { pub bb: EN, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for L_EN_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_EN_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_EN_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_EN_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_EN_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_EN_OWith { pub bb: EN, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for Y_EN_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_EN_OWith".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_EN_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_EN_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_EN_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_EN_OWith(pub EN, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16);
impl Subj for T_EN_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <EN as Subj>::ty()), fld(NULL, <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_EN_OWith".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_EN_OWith(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_EN_OWith(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_EN_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_EN_De { pub bb: EN, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for L_EN_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_EN_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_EN_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_EN_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_EN_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_EN_Val { pub bb: EN, pub a: Value }
impl Subj for Y_EN_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_EN_Val".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_EN_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_EN_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_EN_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_EN_Val(pub EN, pub Value);
impl Subj for T_EN_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <EN as Subj>::ty()), fld(NULL, <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_EN_Val".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_EN_Val(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_EN_Val(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_EN_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_EN_ONS { pub bb: EN, #[cbor(optional)] pub a: NS }
impl Subj for L_EN_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_EN_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_EN_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_EN_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_EN_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_EN_EN { pub bb: EN, pub a: EN }
impl Subj for Y_EN_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_EN_EN".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_EN_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_EN_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_EN_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_EN_EN(pub EN, pub EN);
impl Subj for T_EN_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <EN as Subj>::ty()), fld(NULL, <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_EN_EN".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_EN_EN(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_EN_EN(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_EN_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ORNum_u8 { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, pub a: u8 }
impl Subj for L_ORNum_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ORNum_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ORNum_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ORNum_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ORNum_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ORNum_OOpt { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(optional)] pub a: Option<u8> }
impl Subj for L_ORNum_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ORNum_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ORNum_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ORNum_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ORNum_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ORNum_Skip { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(skip)] pub a: u32 }
impl Subj for L_ORNum_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ORNum_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ORNum_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ORNum_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ORNum_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ORNum_RLong { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for L_ORNum_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ORNum_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ORNum_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ORNum_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ORNum_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ORNum_Ser { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for L_ORNum_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ORNum_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ORNum_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ORNum_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ORNum_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ORNum_NS { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, pub a: NS }
impl Subj for L_ORNum_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ORNum_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ORNum_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ORNum_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ORNum_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ORNum_ORNum { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for L_ORNum_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ORNum_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ORNum_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ORNum_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ORNum_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OVal_u8 { #[cbor(optional)] pub bb: Value, pub a: u8 }
impl Subj for S_OVal_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OVal_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OVal_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OVal_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OVal_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_u8_OVal { pub bb: u8, #[cbor(optional)] pub a: Value }
impl Subj for L_u8_OVal {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <Value as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_u8_OVal".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_u8_OVal { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_u8_OVal { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_u8_OVal {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OTup_OVec { #[cbor(optional)] pub bb: (u8, String), #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_OTup_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(u8, String) as Subj>::ty()).opt(), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OTup_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OTup_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OTup_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OTup_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OVec_OTup { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(optional)] pub a: (u8, String) }
impl Subj for L_OVec_OTup {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <(u8, String) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OVec_OTup".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OVec_OTup { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OVec_OTup { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OVec_OTup {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OTW_With { #[cbor(optional)] pub bb: TW, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_OTW_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <TW as Subj>::ty()).opt(), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OTW_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OTW_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OTW_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OTW_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_With_OTW { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(optional)] pub a: TW }
impl Subj for L_With_OTW {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <TW as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_With_OTW".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_With_OTW { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_With_OTW { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_With_OTW {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OUN_NS { #[cbor(optional)] pub bb: UN, pub a: NS }
impl Subj for S_OUN_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <UN as Subj>::ty()).opt(), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OUN_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OUN_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OUN_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OUN_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_NS_OUN { pub bb: NS, #[cbor(optional)] pub a: UN }
impl Subj for L_NS_OUN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <UN as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_NS_OUN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_NS_OUN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_NS_OUN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_NS_OUN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_UN_Str { pub bb: UN, pub a: String }
impl Subj for S_UN_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <UN as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_UN_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_UN_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_UN_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_UN_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Str_UN { pub bb: String, pub a: UN }
impl Subj for L_Str_UN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <UN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Str_UN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Str_UN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Str_UN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Str_UN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OAR_Skip { #[cbor(optional)] pub bb: AR, #[cbor(skip)] pub a: u32 }
impl Subj for S_OAR_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <AR as Subj>::ty()).opt(), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OAR_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OAR_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OAR_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OAR_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Skip_OAR { #[cbor(skip)] pub bb: u32, #[cbor(optional)] pub a: AR }
impl Subj for L_Skip_OAR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <AR as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Skip_OAR".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Skip_OAR { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Skip_OAR { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Skip_OAR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_AR_OWith { pub bb: AR, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_AR_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <AR as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_AR_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_AR_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_AR_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_AR_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OWith_AR { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, pub a: AR }
impl Subj for L_OWith_AR {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <AR as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OWith_AR".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OWith_AR { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OWith_AR { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OWith_AR {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ND_ONS { pub bb: ND, #[cbor(optional)] pub a: NS }
impl Subj for S_ND_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <ND as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ND_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ND_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ND_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ND_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONS_ND { #[cbor(optional)] pub bb: NS, pub a: ND }
impl Subj for L_ONS_ND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(t("a"), <ND as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONS_ND".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONS_ND { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONS_ND { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONS_ND {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OND_Opt { #[cbor(optional)] pub bb: ND, pub a: Option<u16> }
impl Subj for S_OND_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <ND as Subj>::ty()).opt(), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OND_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OND_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OND_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OND_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Opt_OND { pub bb: Option<u16>, #[cbor(optional)] pub a: ND }
impl Subj for L_Opt_OND {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <ND as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Opt_OND".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Opt_OND { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Opt_OND { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Opt_OND {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ED_RText { pub bb: ED, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_ED_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <ED as Subj>::ty()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ED_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ED_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ED_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ED_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RText_ED { #[cbor(rename = "q")] pub bb: i8, pub a: ED }
impl Subj for L_RText_ED {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <ED as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RText_ED".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RText_ED { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RText_ED { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RText_ED {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OED_Ser { #[cbor(optional)] pub bb: ED, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_OED_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <ED as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OED_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OED_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OED_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OED_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Ser_OED { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(optional)] pub a: ED }
impl Subj for L_Ser_OED {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <ED as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Ser_OED".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Ser_OED { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Ser_OED { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Ser_OED {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OEN_EN { #[cbor(optional)] pub bb: EN, pub a: EN }
impl Subj for S_OEN_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()).opt(), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OEN_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OEN_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OEN_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OEN_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_EN_OEN { pub bb: EN, #[cbor(optional)] pub a: EN }
impl Subj for L_EN_OEN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <EN as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_EN_OEN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_EN_OEN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_EN_OEN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_EN_OEN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OptEN_OOpt { pub bb: Option<EN>, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_OptEN_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<EN> as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OptEN_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OptEN_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OptEN_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OptEN_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OOpt_OptEN { #[cbor(optional)] pub bb: Option<u8>, pub a: Option<EN> }
impl Subj for L_OOpt_OptEN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <Option<EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OOpt_OptEN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OOpt_OptEN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OOpt_OptEN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OOpt_OptEN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Arr_RNum { pub bb: [u16; 2], #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_Arr_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <[u16; 2] as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Arr_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Arr_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Arr_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Arr_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RNum_Arr { #[cbor(rename = 7)] pub bb: i16, pub a: [u16; 2] }
impl Subj for L_RNum_Arr {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <[u16; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RNum_Arr".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RNum_Arr { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RNum_Arr { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RNum_Arr {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OArr_De { #[cbor(optional)] pub bb: [u8; 2], #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_OArr_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <[u8; 2] as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OArr_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OArr_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OArr_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OArr_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_De_OArr { #[cbor(deserialize_with = "de_inc")] pub bb: u8, #[cbor(optional)] pub a: [u8; 2] }
impl Subj for L_De_OArr {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <[u8; 2] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_De_OArr".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_De_OArr { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_De_OArr { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_De_OArr {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Unit_ORNum { pub bb: (), #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_Unit_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <() as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Unit_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Unit_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Unit_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Unit_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ORNum_Unit { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, pub a: () }
impl Subj for L_ORNum_Unit {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <() as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ORNum_Unit".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ORNum_Unit { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ORNum_Unit { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ORNum_Unit {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OUnit_ONum { #[cbor(optional)] pub bb: (), #[cbor(optional)] pub a: u64 }
impl Subj for S_OUnit_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <() as Subj>::ty()).opt(), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OUnit_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OUnit_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OUnit_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OUnit_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONum_OUnit { #[cbor(optional)] pub bb: u64, #[cbor(optional)] pub a: () }
impl Subj for L_ONum_OUnit {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <() as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONum_OUnit".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONum_OUnit { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONum_OUnit { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONum_OUnit {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_WithNs_RLong { #[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] pub bb: Vec<u8>, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_WithNs_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).coded(wrap()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_WithNs_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_WithNs_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_WithNs_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_WithNs_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RLong_WithNs { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, #[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] pub a: Vec<u8> }
impl Subj for L_RLong_WithNs {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty()).coded(wrap())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RLong_WithNs".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RLong_WithNs { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RLong_WithNs { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RLong_WithNs {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OWithIf_Val { #[cbor(optional, skip_serializing_if = "is_seven", serialize_with = "ser_clamp")] pub bb: u8, pub a: Value }
impl Subj for S_OWithIf_Val {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)).coded(clamp()), fld(t("a"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OWithIf_Val".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OWithIf_Val { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OWithIf_Val { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OWithIf_Val {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Val_OWithIf { pub bb: Value, #[cbor(optional, skip_serializing_if = "is_seven", serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for L_Val_OWithIf {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Value as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Val_OWithIf".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Val_OWithIf { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Val_OWithIf { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Val_OWithIf {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OROpt_u8 { #[cbor(optional, rename = "zz", skip_serializing_if = "Option::is_none")] pub bb: Option<String>, pub a: u8 }
impl Subj for S_OROpt_u8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("zz"), <Option<String> as Subj>::ty()).opt().skip_when(|d| *d == D::None), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OROpt_u8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OROpt_u8 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OROpt_u8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OROpt_u8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_u8_OROpt { pub bb: u8, #[cbor(optional, rename = "b", skip_serializing_if = "Option::is_none")] pub a: Option<String> }
impl Subj for L_u8_OROpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("b"), <Option<String> as Subj>::ty()).opt().skip_when(|d| *d == D::None)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_u8_OROpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_u8_OROpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_u8_OROpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_u8_OROpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OStrIf_OVec { #[cbor(optional, skip_serializing_if = "String::is_empty")] pub bb: String, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8> }
impl Subj for S_OStrIf_OVec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()).opt().skip_when(|d| *d == D::Str(String::new())), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![]))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OStrIf_OVec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OStrIf_OVec { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OStrIf_OVec { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OStrIf_OVec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OVec_OStrIf { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub bb: Vec<u8>, #[cbor(optional, skip_serializing_if = "String::is_empty")] pub a: String }
impl Subj for L_OVec_OStrIf {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <String as Subj>::ty()).opt().skip_when(|d| *d == D::Str(String::new()))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OVec_OStrIf".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OVec_OStrIf { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OVec_OStrIf { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OVec_OStrIf {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_SkipRen_With { #[cbor(skip, rename = "aa")] pub bb: u8, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S_SkipRen_With {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("aa"), <u8 as Subj>::ty()).skipped(), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_SkipRen_With".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_SkipRen_With { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_SkipRen_With { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_SkipRen_With {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_With_SkipRen { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub bb: u16, #[cbor(skip, rename = "c")] pub a: u8 }
impl Subj for L_With_SkipRen {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).coded(num()), fld(t("c"), <u8 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_With_SkipRen".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_With_SkipRen { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_With_SkipRen { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_With_SkipRen {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_SkipOpt_NS { #[cbor(skip, optional)] pub bb: Option<NS>, pub a: NS }
impl Subj for S_SkipOpt_NS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<NS> as Subj>::ty()).skipped(), fld(t("a"), <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_SkipOpt_NS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_SkipOpt_NS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_SkipOpt_NS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_SkipOpt_NS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_NS_SkipOpt { pub bb: NS, #[cbor(skip, optional)] pub a: Option<NS> }
impl Subj for L_NS_SkipOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()), fld(t("a"), <Option<NS> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_NS_SkipOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_NS_SkipOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_NS_SkipOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_NS_SkipOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_SkipCod_Str { #[cbor(serialize_with = "ser_num", skip, deserialize_with = "de_num")] pub bb: u16, pub a: String }
impl Subj for S_SkipCod_Str {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).skipped().coded(num()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_SkipCod_Str".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_SkipCod_Str { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_SkipCod_Str { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_SkipCod_Str {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Str_SkipCod { pub bb: String, #[cbor(serialize_with = "ser_num", skip, deserialize_with = "de_num")] pub a: u16 }
impl Subj for L_Str_SkipCod {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).skipped().coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Str_SkipCod".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Str_SkipCod { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Str_SkipCod { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Str_SkipCod {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_SkipIf_Skip { #[cbor(optional, skip, skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(skip)] pub a: u32 }
impl Subj for S_SkipIf_Skip {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).skipped(), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_SkipIf_Skip".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_SkipIf_Skip { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_SkipIf_Skip { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_SkipIf_Skip {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Skip_SkipIf { #[cbor(skip)] pub bb: u32, #[cbor(optional, skip, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for L_Skip_SkipIf {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Skip_SkipIf".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Skip_SkipIf { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Skip_SkipIf { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Skip_SkipIf {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_IfOnly_OWith { #[cbor(skip_serializing_if = "is_seven")] pub bb: u8, #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16 }
impl Subj for S_IfOnly_OWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_IfOnly_OWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_IfOnly_OWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_IfOnly_OWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_IfOnly_OWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OWith_IfOnly { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub bb: u16, #[cbor(skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for L_OWith_IfOnly {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OWith_IfOnly".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OWith_IfOnly { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OWith_IfOnly { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OWith_IfOnly {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_RWith_ONS { #[cbor(rename = 2, deserialize_with = "de_num", serialize_with = "ser_num")] pub bb: u16, #[cbor(optional)] pub a: NS }
impl Subj for S_RWith_ONS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(2), <u16 as Subj>::ty()).coded(num()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_RWith_ONS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_RWith_ONS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_RWith_ONS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_RWith_ONS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONS_RWith { #[cbor(optional)] pub bb: NS, #[cbor(rename = 70000, deserialize_with = "de_num", serialize_with = "ser_num")] pub a: u16 }
impl Subj for L_ONS_RWith {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <NS as Subj>::ty()).opt(), fld(M::U(70000), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONS_RWith".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONS_RWith { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONS_RWith { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONS_RWith {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OSer_Opt { #[cbor(serialize_with = "ser_clamp", optional)] pub bb: u8, pub a: Option<u16> }
impl Subj for S_OSer_Opt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(clamp()), fld(t("a"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OSer_Opt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OSer_Opt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OSer_Opt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OSer_Opt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Opt_OSer { pub bb: Option<u16>, #[cbor(serialize_with = "ser_clamp", optional)] pub a: u8 }
impl Subj for L_Opt_OSer {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Opt_OSer".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Opt_OSer { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Opt_OSer { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Opt_OSer {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_ODe_RText { #[cbor(deserialize_with = "de_inc", optional)] pub bb: u8, #[cbor(rename = "")] pub a: i8 }
impl Subj for S_ODe_RText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(inc()), fld(t(""), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_ODe_RText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_ODe_RText { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_ODe_RText { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_ODe_RText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RText_ODe { #[cbor(rename = "q")] pub bb: i8, #[cbor(deserialize_with = "de_inc", optional)] pub a: u8 }
impl Subj for L_RText_ODe {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RText_ODe".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RText_ODe { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RText_ODe { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RText_ODe {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Und_Ser { #[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] pub bb: u8, #[cbor(serialize_with = "ser_clamp")] pub a: u8 }
impl Subj for S_Und_Ser {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(under()), fld(t("a"), <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Und_Ser".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Und_Ser { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Und_Ser { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Und_Ser {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_Ser_Und { #[cbor(serialize_with = "ser_clamp")] pub bb: u8, #[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] pub a: u8 }
impl Subj for L_Ser_Und {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u8 as Subj>::ty()).coded(under())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_Ser_Und".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_Ser_Und { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_Ser_Und { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_Ser_Und {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_OUnd_EN { #[cbor(optional, serialize_with = "ser_under", deserialize_with = "de_under")] pub bb: u8, pub a: EN }
impl Subj for S_OUnd_EN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(under()), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_OUnd_EN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_OUnd_EN { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_OUnd_EN { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_OUnd_EN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_EN_OUnd { pub bb: EN, #[cbor(optional, serialize_with = "ser_under", deserialize_with = "de_under")] pub a: u8 }
impl Subj for L_EN_OUnd {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(under())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_EN_OUnd".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_EN_OUnd { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_EN_OUnd { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_EN_OUnd {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_Map_OOpt { pub bb: BTreeMap<String, NS>, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S_Map_OOpt {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <BTreeMap<String, NS> as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_Map_OOpt".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_Map_OOpt { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_Map_OOpt { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_Map_OOpt {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_OOpt_Map { #[cbor(optional)] pub bb: Option<u8>, pub a: BTreeMap<String, NS> }
impl Subj for L_OOpt_Map {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <BTreeMap<String, NS> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_OOpt_Map".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_OOpt_Map { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_OOpt_Map { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_OOpt_Map {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_HMap_RNum { pub bb: HashMap<String, u8>, #[cbor(rename = 300)] pub a: i16 }
impl Subj for S_HMap_RNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <HashMap<String, u8> as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_HMap_RNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_HMap_RNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_HMap_RNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_HMap_RNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RNum_HMap { #[cbor(rename = 7)] pub bb: i16, pub a: HashMap<String, u8> }
impl Subj for L_RNum_HMap {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <HashMap<String, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RNum_HMap".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RNum_HMap { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RNum_HMap { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RNum_HMap {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_HSet_De { pub bb: HashSet<u16>, #[cbor(deserialize_with = "de_inc")] pub a: u8 }
impl Subj for S_HSet_De {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <HashSet<u16> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_HSet_De".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_HSet_De { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_HSet_De { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_HSet_De {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_De_HSet { #[cbor(deserialize_with = "de_inc")] pub bb: u8, pub a: HashSet<u16> }
impl Subj for L_De_HSet {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(inc()), fld(t("a"), <HashSet<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_De_HSet".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_De_HSet { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_De_HSet { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_De_HSet {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_VecNS_ORNum { pub bb: Vec<NS>, #[cbor(rename = 1000000, optional, skip_serializing_if = "is_seven")] pub a: u8 }
impl Subj for S_VecNS_ORNum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<NS> as Subj>::ty()), fld(M::U(1000000), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_VecNS_ORNum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_VecNS_ORNum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_VecNS_ORNum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_VecNS_ORNum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ORNum_VecNS { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub bb: u8, pub a: Vec<NS> }
impl Subj for L_ORNum_VecNS {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <Vec<NS> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ORNum_VecNS".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ORNum_VecNS { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ORNum_VecNS { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ORNum_VecNS {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_u128_ONum { pub bb: u128, #[cbor(optional)] pub a: u64 }
impl Subj for S_u128_ONum {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u128 as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_u128_ONum".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_u128_ONum { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_u128_ONum { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_u128_ONum {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_ONum_u128 { #[cbor(optional)] pub bb: u64, pub a: u128 }
impl Subj for L_ONum_u128 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u128 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_ONum_u128".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_ONum_u128 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_ONum_u128 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_ONum_u128 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_char_RLong { pub bb: char, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool }
impl Subj for S_char_RLong {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <char as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_char_RLong".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_char_RLong { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_char_RLong { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_char_RLong {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_RLong_char { #[cbor(rename = "a_field_name_of_at_leas")] pub bb: bool, pub a: char }
impl Subj for L_RLong_char {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a"), <char as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_RLong_char".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_RLong_char { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_RLong_char { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for L_RLong_char {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_0_0 { pub a: u8, #[cbor(optional)] pub b: u64, #[cbor(skip)] pub c: u32 }
impl Subj for S3_0_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()), fld(t("b"), <u64 as Subj>::ty()).opt(), fld(t("c"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_0_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_0_0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_0_0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_0_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_0_1 { pub c: u8, #[cbor(optional)] pub a: u64, #[cbor(skip)] pub b: u32 }
impl Subj for S3_0_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("c"), <u8 as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt(), fld(t("b"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_0_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_0_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_0_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_0_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_0_1 { pub c: u8, #[cbor(optional)] pub a: u64, #[cbor(skip)] pub b: u32 }
impl Subj for L3_0_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("c"), <u8 as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()).opt(), fld(t("b"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_0_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_0_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_0_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_0_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_0_2 { pub b: u8, #[cbor(optional)] pub c: u64, #[cbor(skip)] pub aa: u32 }
impl Subj for S3_0_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <u8 as Subj>::ty()), fld(t("c"), <u64 as Subj>::ty()).opt(), fld(t("aa"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_0_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_0_2 { b: x0, c: x1, aa: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_0_2 { b: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), aa: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_0_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_0_3 { pub cc: u8, #[cbor(optional)] pub b: u64, #[cbor(skip)] pub a: u32 }
impl Subj for S3_0_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("cc"), <u8 as Subj>::ty()), fld(t("b"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_0_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_0_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_0_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_0_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_0_3 { pub cc: u8, #[cbor(optional)] pub b: u64, #[cbor(skip)] pub a: u32 }
impl Subj for L3_0_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("cc"), <u8 as Subj>::ty()), fld(t("b"), <u64 as Subj>::ty()).opt(), fld(t("a"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_0_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_0_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_0_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_0_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y3_0 { pub z: u8, #[cbor(optional)] pub y: u64, #[cbor(skip)] pub x: u32 }
impl Subj for Y3_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("z"), <u8 as Subj>::ty()), fld(t("y"), <u64 as Subj>::ty()).opt(), fld(t("x"), <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y3_0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y3_0 { z: x0, y: x1, x: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y3_0 { z: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), x: Subj::from_d(&v[2]) }
    }
}
impl Default for Y3_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T3_0(pub u8, #[cbor(optional)] pub u64, #[cbor(skip)] pub u32);
impl Subj for T3_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u64 as Subj>::ty()).opt(), fld(NULL, <u32 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T3_0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T3_0(x0, x1, x2) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T3_0(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]))
    }
}
impl Default for T3_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_1_0 { #[cbor(rename = 7)] pub a: i16, pub b: String, #[cbor(optional)] pub c: Option<u8> }
impl Subj for S3_1_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("b"), <String as Subj>::ty()), fld(t("c"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_1_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_1_0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_1_0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_1_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_1_1 { #[cbor(rename = 7)] pub c: i16, pub a: String, #[cbor(optional)] pub b: Option<u8> }
impl Subj for S3_1_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <String as Subj>::ty()), fld(t("b"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_1_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_1_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_1_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_1_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_1_1 { #[cbor(rename = 7)] pub c: i16, pub a: String, #[cbor(optional)] pub b: Option<u8> }
impl Subj for L3_1_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("a"), <String as Subj>::ty()), fld(t("b"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_1_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_1_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_1_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_1_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_1_2 { #[cbor(rename = 7)] pub b: i16, pub c: String, #[cbor(optional)] pub aa: Option<u8> }
impl Subj for S3_1_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("c"), <String as Subj>::ty()), fld(t("aa"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_1_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_1_2 { b: x0, c: x1, aa: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_1_2 { b: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), aa: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_1_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_1_3 { #[cbor(rename = 7)] pub cc: i16, pub b: String, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S3_1_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("b"), <String as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_1_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_1_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_1_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_1_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_1_3 { #[cbor(rename = 7)] pub cc: i16, pub b: String, #[cbor(optional)] pub a: Option<u8> }
impl Subj for L3_1_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("b"), <String as Subj>::ty()), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_1_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_1_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_1_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_1_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y3_1 { #[cbor(rename = 7)] pub z: i16, pub y: String, #[cbor(optional)] pub x: Option<u8> }
impl Subj for Y3_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(t("y"), <String as Subj>::ty()), fld(t("x"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y3_1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y3_1 { z: x0, y: x1, x: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y3_1 { z: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), x: Subj::from_d(&v[2]) }
    }
}
impl Default for Y3_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T3_1(#[cbor(rename = 7)] pub i16, pub String, #[cbor(optional)] pub Option<u8>);
impl Subj for T3_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(NULL, <String as Subj>::ty()), fld(NULL, <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T3_1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T3_1(x0, x1, x2) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T3_1(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]))
    }
}
impl Default for T3_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_2_0 { #[cbor(skip)] pub a: u32, #[cbor(skip)] pub b: u32, pub c: u8 }
impl Subj for S3_2_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u32 as Subj>::ty()).skipped(), fld(t("b"), <u32 as Subj>::ty()).skipped(), fld(t("c"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_2_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_2_0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_2_0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_2_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_2_1 { #[cbor(skip)] pub c: u32, #[cbor(skip)] pub a: u32, pub b: u8 }
impl Subj for S3_2_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("c"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u32 as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_2_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_2_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_2_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_2_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_2_1 { #[cbor(skip)] pub c: u32, #[cbor(skip)] pub a: u32, pub b: u8 }
impl Subj for L3_2_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("c"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u32 as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_2_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_2_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_2_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_2_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_2_2 { #[cbor(skip)] pub b: u32, #[cbor(skip)] pub c: u32, pub aa: u8 }
impl Subj for S3_2_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <u32 as Subj>::ty()).skipped(), fld(t("c"), <u32 as Subj>::ty()).skipped(), fld(t("aa"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_2_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_2_2 { b: x0, c: x1, aa: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_2_2 { b: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), aa: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_2_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_2_3 { #[cbor(skip)] pub cc: u32, #[cbor(skip)] pub b: u32, pub a: u8 }
impl Subj for S3_2_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("cc"), <u32 as Subj>::ty()).skipped(), fld(t("b"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_2_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_2_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_2_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_2_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_2_3 { #[cbor(skip)] pub cc: u32, #[cbor(skip)] pub b: u32, pub a: u8 }
impl Subj for L3_2_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("cc"), <u32 as Subj>::ty()).skipped(), fld(t("b"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_2_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_2_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_2_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_2_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y3_2 { #[cbor(skip)] pub z: u32, #[cbor(skip)] pub y: u32, pub x: u8 }
impl Subj for Y3_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("z"), <u32 as Subj>::ty()).skipped(), fld(t("y"), <u32 as Subj>::ty()).skipped(), fld(t("x"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y3_2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y3_2 { z: x0, y: x1, x: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y3_2 { z: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), x: Subj::from_d(&v[2]) }
    }
}
impl Default for Y3_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T3_2(#[cbor(skip)] pub u32, #[cbor(skip)] pub u32, pub u8);
impl Subj for T3_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T3_2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T3_2(x0, x1, x2) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T3_2(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]))
    }
}
impl Default for T3_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_3_0 { #[cbor(rename = "q")] pub a: i8, #[cbor(rename = "a_field_name_of_at_least")] pub b: bool, #[cbor(rename = 24)] pub c: i16 }
impl Subj for S3_3_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_3_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_3_0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_3_0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_3_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_3_1 { #[cbor(rename = "q")] pub c: i8, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool, #[cbor(rename = 24)] pub b: i16 }
impl Subj for S3_3_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_3_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_3_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_3_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_3_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_3_1 { #[cbor(rename = "q")] pub c: i8, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool, #[cbor(rename = 24)] pub b: i16 }
impl Subj for L3_3_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_3_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_3_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_3_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_3_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_3_2 { #[cbor(rename = "q")] pub b: i8, #[cbor(rename = "a_field_name_of_at_least")] pub c: bool, #[cbor(rename = 24)] pub aa: i16 }
impl Subj for S3_3_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_3_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_3_2 { b: x0, c: x1, aa: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_3_2 { b: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), aa: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_3_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_3_3 { #[cbor(rename = "q")] pub cc: i8, #[cbor(rename = "a_field_name_of_at_least")] pub b: bool, #[cbor(rename = 24)] pub a: i16 }
impl Subj for S3_3_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_3_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_3_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_3_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_3_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_3_3 { #[cbor(rename = "q")] pub cc: i8, #[cbor(rename = "a_field_name_of_at_least")] pub b: bool, #[cbor(rename = 24)] pub a: i16 }
impl Subj for L3_3_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_3_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_3_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_3_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_3_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y3_3 { #[cbor(rename = "q")] pub z: i8, #[cbor(rename = "a_field_name_of_at_least")] pub y: bool, #[cbor(rename = 24)] pub x: i16 }
impl Subj for Y3_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y3_3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y3_3 { z: x0, y: x1, x: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y3_3 { z: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), x: Subj::from_d(&v[2]) }
    }
}
impl Default for Y3_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T3_3(#[cbor(rename = "q")] pub i8, #[cbor(rename = "a_field_name_of_at_least")] pub bool, #[cbor(rename = 24)] pub i16);
impl Subj for T3_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T3_3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T3_3(x0, x1, x2) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T3_3(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]))
    }
}
impl Default for T3_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_4_0 { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub a: u16, #[cbor(optional)] pub b: NS, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub c: u16 }
impl Subj for S3_4_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("b"), <NS as Subj>::ty()).opt(), fld(t("c"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_4_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_4_0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_4_0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_4_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_4_1 { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub c: u16, #[cbor(optional)] pub a: NS, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub b: u16 }
impl Subj for S3_4_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("c"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <NS as Subj>::ty()).opt(), fld(t("b"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_4_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_4_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_4_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_4_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_4_1 { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub c: u16, #[cbor(optional)] pub a: NS, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub b: u16 }
impl Subj for L3_4_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("c"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("a"), <NS as Subj>::ty()).opt(), fld(t("b"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_4_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_4_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_4_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_4_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_4_2 { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub b: u16, #[cbor(optional)] pub c: NS, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub aa: u16 }
impl Subj for S3_4_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("c"), <NS as Subj>::ty()).opt(), fld(t("aa"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_4_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_4_2 { b: x0, c: x1, aa: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_4_2 { b: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), aa: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_4_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_4_3 { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub cc: u16, #[cbor(optional)] pub b: NS, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for S3_4_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("cc"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("b"), <NS as Subj>::ty()).opt(), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_4_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_4_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_4_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_4_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_4_3 { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub cc: u16, #[cbor(optional)] pub b: NS, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: u16 }
impl Subj for L3_4_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("cc"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("b"), <NS as Subj>::ty()).opt(), fld(t("a"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_4_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_4_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_4_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_4_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y3_4 { #[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub z: u16, #[cbor(optional)] pub y: NS, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub x: u16 }
impl Subj for Y3_4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("z"), <u16 as Subj>::ty()).opt().coded(pos()), fld(t("y"), <NS as Subj>::ty()).opt(), fld(t("x"), <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y3_4".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y3_4 { z: x0, y: x1, x: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y3_4 { z: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), x: Subj::from_d(&v[2]) }
    }
}
impl Default for Y3_4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T3_4(#[cbor(optional, serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16, #[cbor(optional)] pub NS, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16);
impl Subj for T3_4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).opt().coded(pos()), fld(NULL, <NS as Subj>::ty()).opt(), fld(NULL, <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T3_4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T3_4(x0, x1, x2) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T3_4(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]))
    }
}
impl Default for T3_4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_5_0 { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub a: u8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub b: Vec<u8>, #[cbor(optional)] pub c: Option<u8> }
impl Subj for S3_5_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("b"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("c"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_5_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_5_0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_5_0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_5_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_5_1 { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub c: u8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8>, #[cbor(optional)] pub b: Option<u8> }
impl Subj for S3_5_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("b"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_5_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_5_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_5_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_5_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_5_1 { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub c: u8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub a: Vec<u8>, #[cbor(optional)] pub b: Option<u8> }
impl Subj for L3_5_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("a"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("b"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_5_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_5_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_5_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_5_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_5_2 { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub b: u8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub c: Vec<u8>, #[cbor(optional)] pub aa: Option<u8> }
impl Subj for S3_5_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("c"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("aa"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_5_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_5_2 { b: x0, c: x1, aa: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_5_2 { b: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), aa: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_5_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_5_3 { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub cc: u8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub b: Vec<u8>, #[cbor(optional)] pub a: Option<u8> }
impl Subj for S3_5_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("b"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_5_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_5_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_5_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_5_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_5_3 { #[cbor(rename = 0, optional, skip_serializing_if = "is_seven")] pub cc: u8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub b: Vec<u8>, #[cbor(optional)] pub a: Option<u8> }
impl Subj for L3_5_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(0), <u8 as Subj>::ty()).opt().skip_when(|d| *d == D::Int(7)), fld(t("b"), <Vec<u8> as Subj>::ty()).opt().skip_when(|d| *d == D::Bytes(vec![])), fld(t("a"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_5_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_5_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_5_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_5_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_6_0 { pub a: Value, #[cbor(skip)] pub b: u32, pub c: EN }
impl Subj for S3_6_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Value as Subj>::ty()), fld(t("b"), <u32 as Subj>::ty()).skipped(), fld(t("c"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_6_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_6_0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_6_0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_6_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_6_1 { pub c: Value, #[cbor(skip)] pub a: u32, pub b: EN }
impl Subj for S3_6_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("c"), <Value as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped(), fld(t("b"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_6_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_6_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_6_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_6_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_6_1 { pub c: Value, #[cbor(skip)] pub a: u32, pub b: EN }
impl Subj for L3_6_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("c"), <Value as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty()).skipped(), fld(t("b"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_6_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_6_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_6_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_6_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_6_2 { pub b: Value, #[cbor(skip)] pub c: u32, pub aa: EN }
impl Subj for S3_6_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <Value as Subj>::ty()), fld(t("c"), <u32 as Subj>::ty()).skipped(), fld(t("aa"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_6_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_6_2 { b: x0, c: x1, aa: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_6_2 { b: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), aa: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_6_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_6_3 { pub cc: Value, #[cbor(skip)] pub b: u32, pub a: EN }
impl Subj for S3_6_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("cc"), <Value as Subj>::ty()), fld(t("b"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_6_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_6_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_6_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_6_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_6_3 { pub cc: Value, #[cbor(skip)] pub b: u32, pub a: EN }
impl Subj for L3_6_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("cc"), <Value as Subj>::ty()), fld(t("b"), <u32 as Subj>::ty()).skipped(), fld(t("a"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_6_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_6_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_6_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_6_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y3_6 { pub z: Value, #[cbor(skip)] pub y: u32, pub x: EN }
impl Subj for Y3_6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("z"), <Value as Subj>::ty()), fld(t("y"), <u32 as Subj>::ty()).skipped(), fld(t("x"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y3_6".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y3_6 { z: x0, y: x1, x: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y3_6 { z: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), x: Subj::from_d(&v[2]) }
    }
}
impl Default for Y3_6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T3_6(pub Value, #[cbor(skip)] pub u32, pub EN);
impl Subj for T3_6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Value as Subj>::ty()), fld(NULL, <u32 as Subj>::ty()).skipped(), fld(NULL, <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T3_6".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T3_6(x0, x1, x2) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T3_6(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]))
    }
}
impl Default for T3_6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_7_0 { pub a: NS, pub b: u8, #[cbor(optional)] pub c: NS }
impl Subj for S3_7_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <NS as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()), fld(t("c"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_7_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_7_0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_7_0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_7_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_7_1 { pub c: NS, pub a: u8, #[cbor(optional)] pub b: NS }
impl Subj for S3_7_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("c"), <NS as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()), fld(t("b"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_7_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_7_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_7_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_7_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_7_1 { pub c: NS, pub a: u8, #[cbor(optional)] pub b: NS }
impl Subj for L3_7_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("c"), <NS as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()), fld(t("b"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_7_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_7_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_7_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_7_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_7_2 { pub b: NS, pub c: u8, #[cbor(optional)] pub aa: NS }
impl Subj for S3_7_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <NS as Subj>::ty()), fld(t("c"), <u8 as Subj>::ty()), fld(t("aa"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_7_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_7_2 { b: x0, c: x1, aa: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_7_2 { b: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), aa: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_7_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_7_3 { pub cc: NS, pub b: u8, #[cbor(optional)] pub a: NS }
impl Subj for S3_7_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("cc"), <NS as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_7_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_7_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_7_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_7_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_7_3 { pub cc: NS, pub b: u8, #[cbor(optional)] pub a: NS }
impl Subj for L3_7_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("cc"), <NS as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()), fld(t("a"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_7_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_7_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_7_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_7_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y3_7 { pub z: NS, pub y: u8, #[cbor(optional)] pub x: NS }
impl Subj for Y3_7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("z"), <NS as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty()), fld(t("x"), <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y3_7".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y3_7 { z: x0, y: x1, x: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y3_7 { z: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), x: Subj::from_d(&v[2]) }
    }
}
impl Default for Y3_7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T3_7(pub NS, pub u8, #[cbor(optional)] pub NS);
impl Subj for T3_7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <NS as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T3_7".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T3_7(x0, x1, x2) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T3_7(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]))
    }
}
impl Default for T3_7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_8_0 { pub a: u8, pub b: u8, pub c: u8 }
impl Subj for S3_8_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()), fld(t("c"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_8_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_8_0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_8_0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_8_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_8_1 { pub c: u8, pub a: u8, pub b: u8 }
impl Subj for S3_8_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("c"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_8_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_8_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_8_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_8_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_8_1 { pub c: u8, pub a: u8, pub b: u8 }
impl Subj for L3_8_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("c"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_8_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_8_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_8_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_8_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_8_2 { pub b: u8, pub c: u8, pub aa: u8 }
impl Subj for S3_8_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <u8 as Subj>::ty()), fld(t("c"), <u8 as Subj>::ty()), fld(t("aa"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_8_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_8_2 { b: x0, c: x1, aa: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_8_2 { b: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), aa: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_8_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_8_3 { pub cc: u8, pub b: u8, pub a: u8 }
impl Subj for S3_8_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("cc"), <u8 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_8_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_8_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_8_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_8_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_8_3 { pub cc: u8, pub b: u8, pub a: u8 }
impl Subj for L3_8_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("cc"), <u8 as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_8_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_8_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_8_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_8_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y3_8 { pub z: u8, pub y: u8, pub x: u8 }
impl Subj for Y3_8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("z"), <u8 as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y3_8".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y3_8 { z: x0, y: x1, x: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y3_8 { z: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), x: Subj::from_d(&v[2]) }
    }
}
impl Default for Y3_8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T3_8(pub u8, pub u8, pub u8);
impl Subj for T3_8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T3_8".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T3_8(x0, x1, x2) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T3_8(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]))
    }
}
impl Default for T3_8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_9_0 { #[cbor(rename = 7)] pub a: i16, #[cbor(rename = 300)] pub b: i16, #[cbor(rename = 24)] pub c: i16 }
impl Subj for S3_9_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_9_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_9_0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_9_0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_9_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_9_1 { #[cbor(rename = 7)] pub c: i16, #[cbor(rename = 300)] pub a: i16, #[cbor(rename = 24)] pub b: i16 }
impl Subj for S3_9_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_9_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_9_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_9_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_9_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_9_1 { #[cbor(rename = 7)] pub c: i16, #[cbor(rename = 300)] pub a: i16, #[cbor(rename = 24)] pub b: i16 }
impl Subj for L3_9_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_9_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_9_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_9_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_9_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_9_2 { #[cbor(rename = 7)] pub b: i16, #[cbor(rename = 300)] pub c: i16, #[cbor(rename = 24)] pub aa: i16 }
impl Subj for S3_9_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_9_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_9_2 { b: x0, c: x1, aa: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_9_2 { b: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), aa: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_9_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_9_3 { #[cbor(rename = 7)] pub cc: i16, #[cbor(rename = 300)] pub b: i16, #[cbor(rename = 24)] pub a: i16 }
impl Subj for S3_9_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_9_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_9_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_9_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_9_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_9_3 { #[cbor(rename = 7)] pub cc: i16, #[cbor(rename = 300)] pub b: i16, #[cbor(rename = 24)] pub a: i16 }
impl Subj for L3_9_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_9_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_9_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_9_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_9_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y3_9 { #[cbor(rename = 7)] pub z: i16, #[cbor(rename = 300)] pub y: i16, #[cbor(rename = 24)] pub x: i16 }
impl Subj for Y3_9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y3_9".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y3_9 { z: x0, y: x1, x: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y3_9 { z: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), x: Subj::from_d(&v[2]) }
    }
}
impl Default for Y3_9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T3_9(#[cbor(rename = 7)] pub i16, #[cbor(rename = 300)] pub i16, #[cbor(rename = 24)] pub i16);
impl Subj for T3_9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), <i16 as Subj>::ty()), fld(M::U(300), <i16 as Subj>::ty()), fld(M::U(24), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T3_9".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T3_9(x0, x1, x2) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T3_9(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]))
    }
}
impl Default for T3_9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_10_0 { #[cbor(rename = "q")] pub a: i8, #[cbor(rename = "")] pub b: i8, #[cbor(rename = "é")] pub c: i8 }
impl Subj for S3_10_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty()), fld(t("é"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_10_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_10_0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_10_0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_10_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_10_1 { #[cbor(rename = "q")] pub c: i8, #[cbor(rename = "")] pub a: i8, #[cbor(rename = "é")] pub b: i8 }
impl Subj for S3_10_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty()), fld(t("é"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_10_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_10_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_10_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_10_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_10_1 { #[cbor(rename = "q")] pub c: i8, #[cbor(rename = "")] pub a: i8, #[cbor(rename = "é")] pub b: i8 }
impl Subj for L3_10_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty()), fld(t("é"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_10_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_10_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_10_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_10_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_10_2 { #[cbor(rename = "q")] pub b: i8, #[cbor(rename = "")] pub c: i8, #[cbor(rename = "é")] pub aa: i8 }
impl Subj for S3_10_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty()), fld(t("é"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_10_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_10_2 { b: x0, c: x1, aa: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_10_2 { b: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), aa: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_10_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_10_3 { #[cbor(rename = "q")] pub cc: i8, #[cbor(rename = "")] pub b: i8, #[cbor(rename = "é")] pub a: i8 }
impl Subj for S3_10_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty()), fld(t("é"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_10_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_10_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_10_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_10_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_10_3 { #[cbor(rename = "q")] pub cc: i8, #[cbor(rename = "")] pub b: i8, #[cbor(rename = "é")] pub a: i8 }
impl Subj for L3_10_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty()), fld(t("é"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_10_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_10_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_10_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_10_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y3_10 { #[cbor(rename = "q")] pub z: i8, #[cbor(rename = "")] pub y: i8, #[cbor(rename = "é")] pub x: i8 }
impl Subj for Y3_10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty()), fld(t("é"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y3_10".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y3_10 { z: x0, y: x1, x: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y3_10 { z: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), x: Subj::from_d(&v[2]) }
    }
}
impl Default for Y3_10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T3_10(#[cbor(rename = "q")] pub i8, #[cbor(rename = "")] pub i8, #[cbor(rename = "é")] pub i8);
impl Subj for T3_10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("q"), <i8 as Subj>::ty()), fld(t(""), <i8 as Subj>::ty()), fld(t("é"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T3_10".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T3_10(x0, x1, x2) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T3_10(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]))
    }
}
impl Default for T3_10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_11_0 { #[cbor(rename = "a_field_name_of_at_leas")] pub a: bool, #[cbor(rename = "a_field_name_of_at_least")] pub b: bool, #[cbor(rename = "a_field_name_of_at_least_")] pub c: bool }
impl Subj for S3_11_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least_"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_11_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_11_0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_11_0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_11_0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_11_1 { #[cbor(rename = "a_field_name_of_at_leas")] pub c: bool, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool, #[cbor(rename = "a_field_name_of_at_least_")] pub b: bool }
impl Subj for S3_11_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least_"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_11_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_11_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_11_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_11_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_11_1 { #[cbor(rename = "a_field_name_of_at_leas")] pub c: bool, #[cbor(rename = "a_field_name_of_at_least")] pub a: bool, #[cbor(rename = "a_field_name_of_at_least_")] pub b: bool }
impl Subj for L3_11_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least_"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_11_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_11_1 { c: x0, a: x1, b: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_11_1 { c: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), b: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_11_1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_11_2 { #[cbor(rename = "a_field_name_of_at_leas")] pub b: bool, #[cbor(rename = "a_field_name_of_at_least")] pub c: bool, #[cbor(rename = "a_field_name_of_at_least_")] pub aa: bool }
impl Subj for S3_11_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least_"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_11_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_11_2 { b: x0, c: x1, aa: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_11_2 { b: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), aa: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_11_2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S3_11_3 { #[cbor(rename = "a_field_name_of_at_leas")] pub cc: bool, #[cbor(rename = "a_field_name_of_at_least")] pub b: bool, #[cbor(rename = "a_field_name_of_at_least_")] pub a: bool }
impl Subj for S3_11_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least_"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S3_11_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S3_11_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S3_11_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for S3_11_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L3_11_3 { #[cbor(rename = "a_field_name_of_at_leas")] pub cc: bool, #[cbor(rename = "a_field_name_of_at_least")] pub b: bool, #[cbor(rename = "a_field_name_of_at_least_")] pub a: bool }
impl Subj for L3_11_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least_"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L3_11_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L3_11_3 { cc: x0, b: x1, a: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L3_11_3 { cc: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), a: Subj::from_d(&v[2]) }
    }
}
impl Default for L3_11_3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y3_11 { #[cbor(rename = "a_field_name_of_at_leas")] pub z: bool, #[cbor(rename = "a_field_name_of_at_least")] pub y: bool, #[cbor(rename = "a_field_name_of_at_least_")] pub x: bool }
impl Subj for Y3_11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least_"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y3_11".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y3_11 { z: x0, y: x1, x: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y3_11 { z: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), x: Subj::from_d(&v[2]) }
    }
}
impl Default for Y3_11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T3_11(#[cbor(rename = "a_field_name_of_at_leas")] pub bool, #[cbor(rename = "a_field_name_of_at_least")] pub bool, #[cbor(rename = "a_field_name_of_at_least_")] pub bool);
impl Subj for T3_11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a_field_name_of_at_leas"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least"), <bool as Subj>::ty()), fld(t("a_field_name_of_at_least_"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T3_11".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T3_11(x0, x1, x2) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T3_11(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]))
    }
}
impl Default for T3_11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Swap2 { #[cbor(rename = "b")] pub a: u8, #[cbor(rename = "a")] pub b: String }
impl Subj for Swap2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <u8 as Subj>::ty()), fld(t("a"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Swap2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Swap2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Swap2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Swap2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Swap2U { #[cbor(rename = "b")] pub a: u8, #[cbor(rename = "a")] pub b: u8 }
impl Subj for Swap2U {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Swap2U".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Swap2U { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Swap2U { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Swap2U {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct Swap3 { #[cbor(rename = "b")] pub a: u8, #[cbor(rename = "c")] pub b: u16, #[cbor(rename = "a")] pub c: u32 }
impl Subj for Swap3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <u8 as Subj>::ty()), fld(t("c"), <u16 as Subj>::ty()), fld(t("a"), <u32 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Swap3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let Swap3 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Swap3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for Swap3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct SkipClash { #[cbor(skip)] pub a: u8, #[cbor(rename = "a")] pub b: u8 }
impl Subj for SkipClash {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SkipClash".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SkipClash { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SkipClash { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for SkipClash {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct NumText { #[cbor(rename = "1")] pub a: u8, #[cbor(rename = 1)] pub b: u8, #[cbor(rename = 18446744073709551615)] pub c: u8 }
impl Subj for NumText {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("1"), <u8 as Subj>::ty()), fld(M::U(1), <u8 as Subj>::ty()), fld(M::U(18446744073709551615), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NumText".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NumText { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NumText { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for NumText {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Order1 { pub b: u8, pub aa: u8, pub ab: u8, pub aaa: u8, pub B: u8 }
impl Subj for Order1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <u8 as Subj>::ty()), fld(t("aa"), <u8 as Subj>::ty()), fld(t("ab"), <u8 as Subj>::ty()), fld(t("aaa"), <u8 as Subj>::ty()), fld(t("B"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Order1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Order1 { b: x0, aa: x1, ab: x2, aaa: x3, B: x4 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Order1 { b: Subj::from_d(&v[0]), aa: Subj::from_d(&v[1]), ab: Subj::from_d(&v[2]), aaa: Subj::from_d(&v[3]), B: Subj::from_d(&v[4]) }
    }
}
impl Default for Order1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Order2 { #[cbor(rename = 23)] pub x1: u8, #[cbor(rename = 24)] pub x2: u8, #[cbor(rename = 255)] pub x3: u8, #[cbor(rename = 256)] pub x4: u8, #[cbor(rename = 65536)] pub x5: u8, #[cbor(rename = 4294967296)] pub x6: u8 }
impl Subj for Order2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(23), <u8 as Subj>::ty()), fld(M::U(24), <u8 as Subj>::ty()), fld(M::U(255), <u8 as Subj>::ty()), fld(M::U(256), <u8 as Subj>::ty()), fld(M::U(65536), <u8 as Subj>::ty()), fld(M::U(4294967296), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Order2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Order2 { x1: x0, x2: x1, x3: x2, x4: x3, x5: x4, x6: x5 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Order2 { x1: Subj::from_d(&v[0]), x2: Subj::from_d(&v[1]), x3: Subj::from_d(&v[2]), x4: Subj::from_d(&v[3]), x5: Subj::from_d(&v[4]), x6: Subj::from_d(&v[5]) }
    }
}
impl Default for Order2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Order3 { #[cbor(rename = "\u{ffff}")] pub x1: u8, #[cbor(rename = "\u{10000}")] pub x2: u8, #[cbor(rename = "z")] pub x3: u8, #[cbor(rename = "zz")] pub x4: u8 }
impl Subj for Order3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("￿"), <u8 as Subj>::ty()), fld(t("𐀀"), <u8 as Subj>::ty()), fld(t("z"), <u8 as Subj>::ty()), fld(t("zz"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Order3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Order3 { x1: x0, x2: x1, x3: x2, x4: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Order3 { x1: Subj::from_d(&v[0]), x2: Subj::from_d(&v[1]), x3: Subj::from_d(&v[2]), x4: Subj::from_d(&v[3]) }
    }
}
impl Default for Order3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct NumDesc { #[cbor(rename = 300)] pub x1: u8, #[cbor(rename = 30)] pub x2: String, #[cbor(rename = 3)] pub x3: bool }
impl Subj for NumDesc {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <u8 as Subj>::ty()), fld(M::U(30), <String as Subj>::ty()), fld(M::U(3), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NumDesc".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let NumDesc { x1: x0, x2: x1, x3: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NumDesc { x1: Subj::from_d(&v[0]), x2: Subj::from_d(&v[1]), x3: Subj::from_d(&v[2]) }
    }
}
impl Default for NumDesc {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct NameLen23 { pub nnnnnnnnnnnnnnnnnnnnnnn: u8, pub mmmmmmmmmmmmmmmmmmmmmmm: u8 }
impl Subj for NameLen23 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("nnnnnnnnnnnnnnnnnnnnnnn"), <u8 as Subj>::ty()), fld(t("mmmmmmmmmmmmmmmmmmmmmmm"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NameLen23".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NameLen23 { nnnnnnnnnnnnnnnnnnnnnnn: x0, mmmmmmmmmmmmmmmmmmmmmmm: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NameLen23 { nnnnnnnnnnnnnnnnnnnnnnn: Subj::from_d(&v[0]), mmmmmmmmmmmmmmmmmmmmmmm: Subj::from_d(&v[1]) }
    }
}
impl Default for NameLen23 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct NameLen24 { pub nnnnnnnnnnnnnnnnnnnnnnnn: u8, pub mmmmmmmmmmmmmmmmmmmmmmmm: u8 }
impl Subj for NameLen24 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("nnnnnnnnnnnnnnnnnnnnnnnn"), <u8 as Subj>::ty()), fld(t("mmmmmmmmmmmmmmmmmmmmmmmm"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NameLen24".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NameLen24 { nnnnnnnnnnnnnnnnnnnnnnnn: x0, mmmmmmmmmmmmmmmmmmmmmmmm: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NameLen24 { nnnnnnnnnnnnnnnnnnnnnnnn: Subj::from_d(&v[0]), mmmmmmmmmmmmmmmmmmmmmmmm: Subj::from_d(&v[1]) }
    }
}
impl Default for NameLen24 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct NameLen255 { pub nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn: u8, pub mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm: u8 }
impl Subj for NameLen255 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"), <u8 as Subj>::ty()), fld(t("mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NameLen255".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NameLen255 { nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn: x0, mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NameLen255 { nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn: Subj::from_d(&v[0]), mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm: Subj::from_d(&v[1]) }
    }
}
impl Default for NameLen255 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct NameLen256 { pub nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn: u8, pub mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm: u8 }
impl Subj for NameLen256 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"), <u8 as Subj>::ty()), fld(t("mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NameLen256".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NameLen256 { nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn: x0, mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NameLen256 { nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn: Subj::from_d(&v[0]), mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm: Subj::from_d(&v[1]) }
    }
}
impl Default for NameLen256 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Many12 { pub f0: u8, pub f7: String, pub f2: Option<i8>, pub f9: bool, pub f4: i64, pub f11: Vec<u8>, pub f6: NS, pub f1: u128, pub f8: u8, pub f3: String, pub f10: Option<i8>, pub f5: bool }
impl Subj for Many12 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f0"), <u8 as Subj>::ty()), fld(t("f7"), <String as Subj>::ty()), fld(t("f2"), <Option<i8> as Subj>::ty()), fld(t("f9"), <bool as Subj>::ty()), fld(t("f4"), <i64 as Subj>::ty()), fld(t("f11"), <Vec<u8> as Subj>::ty()), fld(t("f6"), <NS as Subj>::ty()), fld(t("f1"), <u128 as Subj>::ty()), fld(t("f8"), <u8 as Subj>::ty()), fld(t("f3"), <String as Subj>::ty()), fld(t("f10"), <Option<i8> as Subj>::ty()), fld(t("f5"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Many12".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Many12 { f0: x0, f7: x1, f2: x2, f9: x3, f4: x4, f11: x5, f6: x6, f1: x7, f8: x8, f3: x9, f10: x10, f5: x11 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Many12 { f0: Subj::from_d(&v[0]), f7: Subj::from_d(&v[1]), f2: Subj::from_d(&v[2]), f9: Subj::from_d(&v[3]), f4: Subj::from_d(&v[4]), f11: Subj::from_d(&v[5]), f6: Subj::from_d(&v[6]), f1: Subj::from_d(&v[7]), f8: Subj::from_d(&v[8]), f3: Subj::from_d(&v[9]), f10: Subj::from_d(&v[10]), f5: Subj::from_d(&v[11]) }
    }
}
impl Default for Many12 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Many30 { pub f0: u8, pub f7: String, pub f14: Option<i8>, pub f21: bool, pub f28: i64, pub f5: Vec<u8>, pub f12: NS, pub f19: u128, pub f26: u8, pub f3: String, pub f10: Option<i8>, pub f17: bool, pub f24: i64, pub f1: Vec<u8>, pub f8: NS, pub f15: u128, pub f22: u8, pub f29: String, pub f6: Option<i8>, pub f13: bool, pub f20: i64, pub f27: Vec<u8>, pub f4: NS, pub f11: u128, pub f18: u8, pub f25: String, pub f2: Option<i8>, pub f9: bool, pub f16: i64, pub f23: Vec<u8> }
impl Subj for Many30 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f0"), <u8 as Subj>::ty()), fld(t("f7"), <String as Subj>::ty()), fld(t("f14"), <Option<i8> as Subj>::ty()), fld(t("f21"), <bool as Subj>::ty()), fld(t("f28"), <i64 as Subj>::ty()), fld(t("f5"), <Vec<u8> as Subj>::ty()), fld(t("f12"), <NS as Subj>::ty()), fld(t("f19"), <u128 as Subj>::ty()), fld(t("f26"), <u8 as Subj>::ty()), fld(t("f3"), <String as Subj>::ty()), fld(t("f10"), <Option<i8> as Subj>::ty()), fld(t("f17"), <bool as Subj>::ty()), fld(t("f24"), <i64 as Subj>::ty()), fld(t("f1"), <Vec<u8> as Subj>::ty()), fld(t("f8"), <NS as Subj>::ty()), fld(t("f15"), <u128 as Subj>::ty()), fld(t("f22"), <u8 as Subj>::ty()), fld(t("f29"), <String as Subj>::ty()), fld(t("f6"), <Option<i8> as Subj>::ty()), fld(t("f13"), <bool as Subj>::ty()), fld(t("f20"), <i64 as Subj>::ty()), fld(t("f27"), <Vec<u8> as Subj>::ty()), fld(t("f4"), <NS as Subj>::ty()), fld(t("f11"), <u128 as Subj>::ty()), fld(t("f18"), <u8 as Subj>::ty()), fld(t("f25"), <String as Subj>::ty()), fld(t("f2"), <Option<i8> as Subj>::ty()), fld(t("f9"), <bool as Subj>::ty()), fld(t("f16"), <i64 as Subj>::ty()), fld(t("f23"), <Vec<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Many30".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Many30 { f0: x0, f7: x1, f14: x2, f21: x3, f28: x4, f5: x5, f12: x6, f19: x7, f26: x8, f3: x9, f10: x10, f17: x11, f24: x12, f1: x13, f8: x14, f15: x15, f22: x16, f29: x17, f6: x18, f13: x19, f20: x20, f27: x21, f4: x22, f11: x23, f18: x24, f25: x25, f2: x26, f9: x27, f16: x28, f23: x29 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Many30 { f0: Subj::from_d(&v[0]), f7: Subj::from_d(&v[1]), f14: Subj::from_d(&v[2]), f21: Subj::from_d(&v[3]), f28: Subj::from_d(&v[4]), f5: Subj::from_d(&v[5]), f12: Subj::from_d(&v[6]), f19: Subj::from_d(&v[7]), f26: Subj::from_d(&v[8]), f3: Subj::from_d(&v[9]), f10: Subj::from_d(&v[10]), f17: Subj::from_d(&v[11]), f24: Subj::from_d(&v[12]), f1: Subj::from_d(&v[13]), f8: Subj::from_d(&v[14]), f15: Subj::from_d(&v[15]), f22: Subj::from_d(&v[16]), f29: Subj::from_d(&v[17]), f6: Subj::from_d(&v[18]), f13: Subj::from_d(&v[19]), f20: Subj::from_d(&v[20]), f27: Subj::from_d(&v[21]), f4: Subj::from_d(&v[22]), f11: Subj::from_d(&v[23]), f18: Subj::from_d(&v[24]), f25: Subj::from_d(&v[25]), f2: Subj::from_d(&v[26]), f9: Subj::from_d(&v[27]), f16: Subj::from_d(&v[28]), f23: Subj::from_d(&v[29]) }
    }
}
impl Default for Many30 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct Many30L { pub f0: u8, #[cbor(optional)] pub f11: String, pub f22: Option<i8>, #[cbor(optional)] pub f3: bool, pub f14: i64, #[cbor(optional)] pub f25: Vec<u8>, pub f6: NS, #[cbor(optional)] pub f17: u128, pub f28: u8, #[cbor(optional)] pub f9: String, pub f20: Option<i8>, #[cbor(optional)] pub f1: bool, pub f12: i64, #[cbor(optional)] pub f23: Vec<u8>, pub f4: NS, #[cbor(optional)] pub f15: u128, pub f26: u8, #[cbor(optional)] pub f7: String, pub f18: Option<i8>, #[cbor(optional)] pub f29: bool, pub f10: i64, #[cbor(optional)] pub f21: Vec<u8>, pub f2: NS, #[cbor(optional)] pub f13: u128, pub f24: u8, #[cbor(optional)] pub f5: String, pub f16: Option<i8>, #[cbor(optional)] pub f27: bool, pub f8: i64, #[cbor(optional)] pub f19: Vec<u8> }
impl Subj for Many30L {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f0"), <u8 as Subj>::ty()), fld(t("f11"), <String as Subj>::ty()).opt(), fld(t("f22"), <Option<i8> as Subj>::ty()), fld(t("f3"), <bool as Subj>::ty()).opt(), fld(t("f14"), <i64 as Subj>::ty()), fld(t("f25"), <Vec<u8> as Subj>::ty()).opt(), fld(t("f6"), <NS as Subj>::ty()), fld(t("f17"), <u128 as Subj>::ty()).opt(), fld(t("f28"), <u8 as Subj>::ty()), fld(t("f9"), <String as Subj>::ty()).opt(), fld(t("f20"), <Option<i8> as Subj>::ty()), fld(t("f1"), <bool as Subj>::ty()).opt(), fld(t("f12"), <i64 as Subj>::ty()), fld(t("f23"), <Vec<u8> as Subj>::ty()).opt(), fld(t("f4"), <NS as Subj>::ty()), fld(t("f15"), <u128 as Subj>::ty()).opt(), fld(t("f26"), <u8 as Subj>::ty()), fld(t("f7"), <String as Subj>::ty()).opt(), fld(t("f18"), <Option<i8> as Subj>::ty()), fld(t("f29"), <bool as Subj>::ty()).opt(), fld(t("f10"), <i64 as Subj>::ty()), fld(t("f21"), <Vec<u8> as Subj>::ty()).opt(), fld(t("f2"), <NS as Subj>::ty()), fld(t("f13"), <u128 as Subj>::ty()).opt(), fld(t("f24"), <u8 as Subj>::ty()), fld(t("f5"), <String as Subj>::ty()).opt(), fld(t("f16"), <Option<i8> as Subj>::ty()), fld(t("f27"), <bool as Subj>::ty()).opt(), fld(t("f8"), <i64 as Subj>::ty()), fld(t("f19"), <Vec<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Many30L".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let Many30L { f0: x0, f11: x1, f22: x2, f3: x3, f14: x4, f25: x5, f6: x6, f17: x7, f28: x8, f9: x9, f20: x10, f1: x11, f12: x12, f23: x13, f4: x14, f15: x15, f26: x16, f7: x17, f18: x18, f29: x19, f10: x20, f21: x21, f2: x22, f13: x23, f24: x24, f5: x25, f16: x26, f27: x27, f8: x28, f19: x29 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Many30L { f0: Subj::from_d(&v[0]), f11: Subj::from_d(&v[1]), f22: Subj::from_d(&v[2]), f3: Subj::from_d(&v[3]), f14: Subj::from_d(&v[4]), f25: Subj::from_d(&v[5]), f6: Subj::from_d(&v[6]), f17: Subj::from_d(&v[7]), f28: Subj::from_d(&v[8]), f9: Subj::from_d(&v[9]), f20: Subj::from_d(&v[10]), f1: Subj::from_d(&v[11]), f12: Subj::from_d(&v[12]), f23: Subj::from_d(&v[13]), f4: Subj::from_d(&v[14]), f15: Subj::from_d(&v[15]), f26: Subj::from_d(&v[16]), f7: Subj::from_d(&v[17]), f18: Subj::from_d(&v[18]), f29: Subj::from_d(&v[19]), f10: Subj::from_d(&v[20]), f21: Subj::from_d(&v[21]), f2: Subj::from_d(&v[22]), f13: Subj::from_d(&v[23]), f24: Subj::from_d(&v[24]), f5: Subj::from_d(&v[25]), f16: Subj::from_d(&v[26]), f27: Subj::from_d(&v[27]), f8: Subj::from_d(&v[28]), f19: Subj::from_d(&v[29]) }
    }
}
impl Default for Many30L {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Many26A { pub f0: u8, pub f1: String, pub f2: Option<i8>, pub f3: bool, pub f4: i64, pub f5: Vec<u8>, pub f6: NS, pub f7: u128, pub f8: u8, pub f9: String, pub f10: Option<i8>, pub f11: bool, pub f12: i64, pub f13: Vec<u8>, pub f14: NS, pub f15: u128, pub f16: u8, pub f17: String, pub f18: Option<i8>, pub f19: bool, pub f20: i64, pub f21: Vec<u8>, pub f22: NS, pub f23: u128, pub f24: u8, pub f25: String }
impl Subj for Many26A {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f0"), <u8 as Subj>::ty()), fld(t("f1"), <String as Subj>::ty()), fld(t("f2"), <Option<i8> as Subj>::ty()), fld(t("f3"), <bool as Subj>::ty()), fld(t("f4"), <i64 as Subj>::ty()), fld(t("f5"), <Vec<u8> as Subj>::ty()), fld(t("f6"), <NS as Subj>::ty()), fld(t("f7"), <u128 as Subj>::ty()), fld(t("f8"), <u8 as Subj>::ty()), fld(t("f9"), <String as Subj>::ty()), fld(t("f10"), <Option<i8> as Subj>::ty()), fld(t("f11"), <bool as Subj>::ty()), fld(t("f12"), <i64 as Subj>::ty()), fld(t("f13"), <Vec<u8> as Subj>::ty()), fld(t("f14"), <NS as Subj>::ty()), fld(t("f15"), <u128 as Subj>::ty()), fld(t("f16"), <u8 as Subj>::ty()), fld(t("f17"), <String as Subj>::ty()), fld(t("f18"), <Option<i8> as Subj>::ty()), fld(t("f19"), <bool as Subj>::ty()), fld(t("f20"), <i64 as Subj>::ty()), fld(t("f21"), <Vec<u8> as Subj>::ty()), fld(t("f22"), <NS as Subj>::ty()), fld(t("f23"), <u128 as Subj>::ty()), fld(t("f24"), <u8 as Subj>::ty()), fld(t("f25"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Many26A".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Many26A { f0: x0, f1: x1, f2: x2, f3: x3, f4: x4, f5: x5, f6: x6, f7: x7, f8: x8, f9: x9, f10: x10, f11: x11, f12: x12, f13: x13, f14: x14, f15: x15, f16: x16, f17: x17, f18: x18, f19: x19, f20: x20, f21: x21, f22: x22, f23: x23, f24: x24, f25: x25 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Many26A { f0: Subj::from_d(&v[0]), f1: Subj::from_d(&v[1]), f2: Subj::from_d(&v[2]), f3: Subj::from_d(&v[3]), f4: Subj::from_d(&v[4]), f5: Subj::from_d(&v[5]), f6: Subj::from_d(&v[6]), f7: Subj::from_d(&v[7]), f8: Subj::from_d(&v[8]), f9: Subj::from_d(&v[9]), f10: Subj::from_d(&v[10]), f11: Subj::from_d(&v[11]), f12: Subj::from_d(&v[12]), f13: Subj::from_d(&v[13]), f14: Subj::from_d(&v[14]), f15: Subj::from_d(&v[15]), f16: Subj::from_d(&v[16]), f17: Subj::from_d(&v[17]), f18: Subj::from_d(&v[18]), f19: Subj::from_d(&v[19]), f20: Subj::from_d(&v[20]), f21: Subj::from_d(&v[21]), f22: Subj::from_d(&v[22]), f23: Subj::from_d(&v[23]), f24: Subj::from_d(&v[24]), f25: Subj::from_d(&v[25]) }
    }
}
impl Default for Many26A {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Many26T(pub u8, pub String, pub Option<i8>, pub bool, pub i64, pub Vec<u8>, pub NS, pub u128, pub u8, pub String, pub Option<i8>, pub bool, pub i64, pub Vec<u8>, pub NS, pub u128, pub u8, pub String, pub Option<i8>, pub bool, pub i64, pub Vec<u8>, pub NS, pub u128, pub u8, pub String);
impl Subj for Many26T {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty()), fld(NULL, <Option<i8> as Subj>::ty()), fld(NULL, <bool as Subj>::ty()), fld(NULL, <i64 as Subj>::ty()), fld(NULL, <Vec<u8> as Subj>::ty()), fld(NULL, <NS as Subj>::ty()), fld(NULL, <u128 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty()), fld(NULL, <Option<i8> as Subj>::ty()), fld(NULL, <bool as Subj>::ty()), fld(NULL, <i64 as Subj>::ty()), fld(NULL, <Vec<u8> as Subj>::ty()), fld(NULL, <NS as Subj>::ty()), fld(NULL, <u128 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty()), fld(NULL, <Option<i8> as Subj>::ty()), fld(NULL, <bool as Subj>::ty()), fld(NULL, <i64 as Subj>::ty()), fld(NULL, <Vec<u8> as Subj>::ty()), fld(NULL, <NS as Subj>::ty()), fld(NULL, <u128 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Many26T".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Many26T(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Many26T(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]), Subj::from_d(&v[3]), Subj::from_d(&v[4]), Subj::from_d(&v[5]), Subj::from_d(&v[6]), Subj::from_d(&v[7]), Subj::from_d(&v[8]), Subj::from_d(&v[9]), Subj::from_d(&v[10]), Subj::from_d(&v[11]), Subj::from_d(&v[12]), Subj::from_d(&v[13]), Subj::from_d(&v[14]), Subj::from_d(&v[15]), Subj::from_d(&v[16]), Subj::from_d(&v[17]), Subj::from_d(&v[18]), Subj::from_d(&v[19]), Subj::from_d(&v[20]), Subj::from_d(&v[21]), Subj::from_d(&v[22]), Subj::from_d(&v[23]), Subj::from_d(&v[24]), Subj::from_d(&v[25]))
    }
}
impl Default for Many26T {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Many70 { pub f0: u8, #[cbor(optional)] pub f11: u8, #[cbor(optional)] pub f22: u8, pub f33: u8, #[cbor(optional)] pub f44: u8, #[cbor(optional)] pub f55: u8, pub f66: u8, #[cbor(optional)] pub f7: u8, #[cbor(optional)] pub f18: u8, pub f29: u8, #[cbor(optional)] pub f40: u8, #[cbor(optional)] pub f51: u8, pub f62: u8, #[cbor(optional)] pub f3: u8, #[cbor(optional)] pub f14: u8, pub f25: u8, #[cbor(optional)] pub f36: u8, #[cbor(optional)] pub f47: u8, pub f58: u8, #[cbor(optional)] pub f69: u8, #[cbor(optional)] pub f10: u8, pub f21: u8, #[cbor(optional)] pub f32: u8, #[cbor(optional)] pub f43: u8, pub f54: u8, #[cbor(optional)] pub f65: u8, #[cbor(optional)] pub f6: u8, pub f17: u8, #[cbor(optional)] pub f28: u8, #[cbor(optional)] pub f39: u8, pub f50: u8, #[cbor(optional)] pub f61: u8, #[cbor(optional)] pub f2: u8, pub f13: u8, #[cbor(optional)] pub f24: u8, #[cbor(optional)] pub f35: u8, pub f46: u8, #[cbor(optional)] pub f57: u8, #[cbor(optional)] pub f68: u8, pub f9: u8, #[cbor(optional)] pub f20: u8, #[cbor(optional)] pub f31: u8, pub f42: u8, #[cbor(optional)] pub f53: u8, #[cbor(optional)] pub f64: u8, pub f5: u8, #[cbor(optional)] pub f16: u8, #[cbor(optional)] pub f27: u8, pub f38: u8, #[cbor(optional)] pub f49: u8, #[cbor(optional)] pub f60: u8, pub f1: u8, #[cbor(optional)] pub f12: u8, #[cbor(optional)] pub f23: u8, pub f34: u8, #[cbor(optional)] pub f45: u8, #[cbor(optional)] pub f56: u8, pub f67: u8, #[cbor(optional)] pub f8: u8, #[cbor(optional)] pub f19: u8, pub f30: u8, #[cbor(optional)] pub f41: u8, #[cbor(optional)] pub f52: u8, pub f63: u8, #[cbor(optional)] pub f4: u8, #[cbor(optional)] pub f15: u8, pub f26: u8, #[cbor(optional)] pub f37: u8, #[cbor(optional)] pub f48: u8, pub f59: u8 }
impl Subj for Many70 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f0"), <u8 as Subj>::ty()), fld(t("f11"), <u8 as Subj>::ty()).opt(), fld(t("f22"), <u8 as Subj>::ty()).opt(), fld(t("f33"), <u8 as Subj>::ty()), fld(t("f44"), <u8 as Subj>::ty()).opt(), fld(t("f55"), <u8 as Subj>::ty()).opt(), fld(t("f66"), <u8 as Subj>::ty()), fld(t("f7"), <u8 as Subj>::ty()).opt(), fld(t("f18"), <u8 as Subj>::ty()).opt(), fld(t("f29"), <u8 as Subj>::ty()), fld(t("f40"), <u8 as Subj>::ty()).opt(), fld(t("f51"), <u8 as Subj>::ty()).opt(), fld(t("f62"), <u8 as Subj>::ty()), fld(t("f3"), <u8 as Subj>::ty()).opt(), fld(t("f14"), <u8 as Subj>::ty()).opt(), fld(t("f25"), <u8 as Subj>::ty()), fld(t("f36"), <u8 as Subj>::ty()).opt(), fld(t("f47"), <u8 as Subj>::ty()).opt(), fld(t("f58"), <u8 as Subj>::ty()), fld(t("f69"), <u8 as Subj>::ty()).opt(), fld(t("f10"), <u8 as Subj>::ty()).opt(), fld(t("f21"), <u8 as Subj>::ty()), fld(t("f32"), <u8 as Subj>::ty()).opt(), fld(t("f43"), <u8 as Subj>::ty()).opt(), fld(t("f54"), <u8 as Subj>::ty()), fld(t("f65"), <u8 as Subj>::ty()).opt(), fld(t("f6"), <u8 as Subj>::ty()).opt(), fld(t("f17"), <u8 as Subj>::ty()), fld(t("f28"), <u8 as Subj>::ty()).opt(), fld(t("f39"), <u8 as Subj>::ty()).opt(), fld(t("f50"), <u8 as Subj>::ty()), fld(t("f61"), <u8 as Subj>::ty()).opt(), fld(t("f2"), <u8 as Subj>::ty()).opt(), fld(t("f13"), <u8 as Subj>::ty()), fld(t("f24"), <u8 as Subj>::ty()).opt(), fld(t("f35"), <u8 as Subj>::ty()).opt(), fld(t("f46"), <u8 as Subj>::ty()), fld(t("f57"), <u8 as Subj>::ty()).opt(), fld(t("f68"), <u8 as Subj>::ty()).opt(), fld(t("f9"), <u8 as Subj>::ty()), fld(t("f20"), <u8 as Subj>::ty()).opt(), fld(t("f31"), <u8 as Subj>::ty()).opt(), fld(t("f42"), <u8 as Subj>::ty()), fld(t("f53"), <u8 as Subj>::ty()).opt(), fld(t("f64"), <u8 as Subj>::ty()).opt(), fld(t("f5"), <u8 as Subj>::ty()), fld(t("f16"), <u8 as Subj>::ty()).opt(), fld(t("f27"), <u8 as Subj>::ty()).opt(), fld(t("f38"), <u8 as Subj>::ty()), fld(t("f49"), <u8 as Subj>::ty()).opt(), fld(t("f60"), <u8 as Subj>::ty()).opt(), fld(t("f1"), <u8 as Subj>::ty()), fld(t("f12"), <u8 as Subj>::ty()).opt(), fld(t("f23"), <u8 as Subj>::ty()).opt(), fld(t("f34"), <u8 as Subj>::ty()), fld(t("f45"), <u8 as Subj>::ty()).opt(), fld(t("f56"), <u8 as Subj>::ty()).opt(), fld(t("f67"), <u8 as Subj>::ty()), fld(t("f8"), <u8 as Subj>::ty()).opt(), fld(t("f19"), <u8 as Subj>::ty()).opt(), fld(t("f30"), <u8 as Subj>::ty()), fld(t("f41"), <u8 as Subj>::ty()).opt(), fld(t("f52"), <u8 as Subj>::ty()).opt(), fld(t("f63"), <u8 as Subj>::ty()), fld(t("f4"), <u8 as Subj>::ty()).opt(), fld(t("f15"), <u8 as Subj>::ty()).opt(), fld(t("f26"), <u8 as Subj>::ty()), fld(t("f37"), <u8 as Subj>::ty()).opt(), fld(t("f48"), <u8 as Subj>::ty()).opt(), fld(t("f59"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Many70".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Many70 { f0: x0, f11: x1, f22: x2, f33: x3, f44: x4, f55: x5, f66: x6, f7: x7, f18: x8, f29: x9, f40: x10, f51: x11, f62: x12, f3: x13, f14: x14, f25: x15, f36: x16, f47: x17, f58: x18, f69: x19, f10: x20, f21: x21, f32: x22, f43: x23, f54: x24, f65: x25, f6: x26, f17: x27, f28: x28, f39: x29, f50: x30, f61: x31, f2: x32, f13: x33, f24: x34, f35: x35, f46: x36, f57: x37, f68: x38, f9: x39, f20: x40, f31: x41, f42: x42, f53: x43, f64: x44, f5: x45, f16: x46, f27: x47, f38: x48, f49: x49, f60: x50, f1: x51, f12: x52, f23: x53, f34: x54, f45: x55, f56: x56, f67: x57, f8: x58, f19: x59, f30: x60, f41: x61, f52: x62, f63: x63, f4: x64, f15: x65, f26: x66, f37: x67, f48: x68, f59: x69 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d(), x32.to_d(), x33.to_d(), x34.to_d(), x35.to_d(), x36.to_d(), x37.to_d(), x38.to_d(), x39.to_d(), x40.to_d(), x41.to_d(), x42.to_d(), x43.to_d(), x44.to_d(), x45.to_d(), x46.to_d(), x47.to_d(), x48.to_d(), x49.to_d(), x50.to_d(), x51.to_d(), x52.to_d(), x53.to_d(), x54.to_d(), x55.to_d(), x56.to_d(), x57.to_d(), x58.to_d(), x59.to_d(), x60.to_d(), x61.to_d(), x62.to_d(), x63.to_d(), x64.to_d(), x65.to_d(), x66.to_d(), x67.to_d(), x68.to_d(), x69.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Many70 { f0: Subj::from_d(&v[0]), f11: Subj::from_d(&v[1]), f22: Subj::from_d(&v[2]), f33: Subj::from_d(&v[3]), f44: Subj::from_d(&v[4]), f55: Subj::from_d(&v[5]), f66: Subj::from_d(&v[6]), f7: Subj::from_d(&v[7]), f18: Subj::from_d(&v[8]), f29: Subj::from_d(&v[9]), f40: Subj::from_d(&v[10]), f51: Subj::from_d(&v[11]), f62: Subj::from_d(&v[12]), f3: Subj::from_d(&v[13]), f14: Subj::from_d(&v[14]), f25: Subj::from_d(&v[15]), f36: Subj::from_d(&v[16]), f47: Subj::from_d(&v[17]), f58: Subj::from_d(&v[18]), f69: Subj::from_d(&v[19]), f10: Subj::from_d(&v[20]), f21: Subj::from_d(&v[21]), f32: Subj::from_d(&v[22]), f43: Subj::from_d(&v[23]), f54: Subj::from_d(&v[24]), f65: Subj::from_d(&v[25]), f6: Subj::from_d(&v[26]), f17: Subj::from_d(&v[27]), f28: Subj::from_d(&v[28]), f39: Subj::from_d(&v[29]), f50: Subj::from_d(&v[30]), f61: Subj::from_d(&v[31]), f2: Subj::from_d(&v[32]), f13: Subj::from_d(&v[33]), f24: Subj::from_d(&v[34]), f35: Subj::from_d(&v[35]), f46: Subj::from_d(&v[36]), f57: Subj::from_d(&v[37]), f68: Subj::from_d(&v[38]), f9: Subj::from_d(&v[39]), f20: Subj::from_d(&v[40]), f31: Subj::from_d(&v[41]), f42: Subj::from_d(&v[42]), f53: Subj::from_d(&v[43]), f64: Subj::from_d(&v[44]), f5: Subj::from_d(&v[45]), f16: Subj::from_d(&v[46]), f27: Subj::from_d(&v[47]), f38: Subj::from_d(&v[48]), f49: Subj::from_d(&v[49]), f60: Subj::from_d(&v[50]), f1: Subj::from_d(&v[51]), f12: Subj::from_d(&v[52]), f23: Subj::from_d(&v[53]), f34: Subj::from_d(&v[54]), f45: Subj::from_d(&v[55]), f56: Subj::from_d(&v[56]), f67: Subj::from_d(&v[57]), f8: Subj::from_d(&v[58]), f19: Subj::from_d(&v[59]), f30: Subj::from_d(&v[60]), f41: Subj::from_d(&v[61]), f52: Subj::from_d(&v[62]), f63: Subj::from_d(&v[63]), f4: Subj::from_d(&v[64]), f15: Subj::from_d(&v[65]), f26: Subj::from_d(&v[66]), f37: Subj::from_d(&v[67]), f48: Subj::from_d(&v[68]), f59: Subj::from_d(&v[69]) }
    }
}
impl Default for Many70 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct Many140 { #[cbor(rename = 200)] pub q0: u16, #[cbor(rename = 259)] pub q1: u16, #[cbor(rename = 318)] pub q2: u16, #[cbor(rename = 237)] pub q3: u16, #[cbor(rename = 296)] pub q4: u16, #[cbor(rename = 215)] pub q5: u16, #[cbor(rename = 274)] pub q6: u16, #[cbor(rename = 333)] pub q7: u16, #[cbor(rename = 252)] pub q8: u16, #[cbor(rename = 311)] pub q9: u16, #[cbor(rename = 230)] pub q10: u16, #[cbor(rename = 289)] pub q11: u16, #[cbor(rename = 208)] pub q12: u16, #[cbor(rename = 267)] pub q13: u16, #[cbor(rename = 326)] pub q14: u16, #[cbor(rename = 245)] pub q15: u16, #[cbor(rename = 304)] pub q16: u16, #[cbor(rename = 223)] pub q17: u16, #[cbor(rename = 282)] pub q18: u16, #[cbor(rename = 201)] pub q19: u16, #[cbor(rename = 260)] pub q20: u16, #[cbor(rename = 319)] pub q21: u16, #[cbor(rename = 238)] pub q22: u16, #[cbor(rename = 297)] pub q23: u16, #[cbor(rename = 216)] pub q24: u16, #[cbor(rename = 275)] pub q25: u16, #[cbor(rename = 334)] pub q26: u16, #[cbor(rename = 253)] pub q27: u16, #[cbor(rename = 312)] pub q28: u16, #[cbor(rename = 231)] pub q29: u16, #[cbor(rename = 290)] pub q30: u16, #[cbor(rename = 209)] pub q31: u16, #[cbor(rename = 268)] pub q32: u16, #[cbor(rename = 327)] pub q33: u16, #[cbor(rename = 246)] pub q34: u16, #[cbor(rename = 305)] pub q35: u16, #[cbor(rename = 224)] pub q36: u16, #[cbor(rename = 283)] pub q37: u16, #[cbor(rename = 202)] pub q38: u16, #[cbor(rename = 261)] pub q39: u16, #[cbor(rename = 320)] pub q40: u16, #[cbor(rename = 239)] pub q41: u16, #[cbor(rename = 298)] pub q42: u16, #[cbor(rename = 217)] pub q43: u16, #[cbor(rename = 276)] pub q44: u16, #[cbor(rename = 335)] pub q45: u16, #[cbor(rename = 254)] pub q46: u16, #[cbor(rename = 313)] pub q47: u16, #[cbor(rename = 232)] pub q48: u16, #[cbor(rename = 291)] pub q49: u16, #[cbor(rename = 210)] pub q50: u16, #[cbor(rename = 269)] pub q51: u16, #[cbor(rename = 328)] pub q52: u16, #[cbor(rename = 247)] pub q53: u16, #[cbor(rename = 306)] pub q54: u16, #[cbor(rename = 225)] pub q55: u16, #[cbor(rename = 284)] pub q56: u16, #[cbor(rename = 203)] pub q57: u16, #[cbor(rename = 262)] pub q58: u16, #[cbor(rename = 321)] pub q59: u16, #[cbor(rename = 240)] pub q60: u16, #[cbor(rename = 299)] pub q61: u16, #[cbor(rename = 218)] pub q62: u16, #[cbor(rename = 277)] pub q63: u16, #[cbor(rename = 336)] pub q64: u16, #[cbor(rename = 255)] pub q65: u16, #[cbor(rename = 314)] pub q66: u16, #[cbor(rename = 233)] pub q67: u16, #[cbor(rename = 292)] pub q68: u16, #[cbor(rename = 211)] pub q69: u16, #[cbor(rename = 270)] pub q70: u16, #[cbor(rename = 329)] pub q71: u16, #[cbor(rename = 248)] pub q72: u16, #[cbor(rename = 307)] pub q73: u16, #[cbor(rename = 226)] pub q74: u16, #[cbor(rename = 285)] pub q75: u16, #[cbor(rename = 204)] pub q76: u16, #[cbor(rename = 263)] pub q77: u16, #[cbor(rename = 322)] pub q78: u16, #[cbor(rename = 241)] pub q79: u16, #[cbor(rename = 300)] pub q80: u16, #[cbor(rename = 219)] pub q81: u16, #[cbor(rename = 278)] pub q82: u16, #[cbor(rename = 337)] pub q83: u16, #[cbor(rename = 256)] pub q84: u16, #[cbor(rename = 315)] pub q85: u16, #[cbor(rename = 234)] pub q86: u16, #[cbor(rename = 293)] pub q87: u16, #[cbor(rename = 212)] pub q88: u16, #[cbor(rename = 271)] pub q89: u16, #[cbor(rename = 330)] pub q90: u16, #[cbor(rename = 249)] pub q91: u16, #[cbor(rename = 308)] pub q92: u16, #[cbor(rename = 227)] pub q93: u16, #[cbor(rename = 286)] pub q94: u16, #[cbor(rename = 205)] pub q95: u16, #[cbor(rename = 264)] pub q96: u16, #[cbor(rename = 323)] pub q97: u16, #[cbor(rename = 242)] pub q98: u16, #[cbor(rename = 301)] pub q99: u16, #[cbor(rename = 220)] pub q100: u16, #[cbor(rename = 279)] pub q101: u16, #[cbor(rename = 338)] pub q102: u16, #[cbor(rename = 257)] pub q103: u16, #[cbor(rename = 316)] pub q104: u16, #[cbor(rename = 235)] pub q105: u16, #[cbor(rename = 294)] pub q106: u16, #[cbor(rename = 213)] pub q107: u16, #[cbor(rename = 272)] pub q108: u16, #[cbor(rename = 331)] pub q109: u16, #[cbor(rename = 250)] pub q110: u16, #[cbor(rename = 309)] pub q111: u16, #[cbor(rename = 228)] pub q112: u16, #[cbor(rename = 287)] pub q113: u16, #[cbor(rename = 206)] pub q114: u16, #[cbor(rename = 265)] pub q115: u16, #[cbor(rename = 324)] pub q116: u16, #[cbor(rename = 243)] pub q117: u16, #[cbor(rename = 302)] pub q118: u16, #[cbor(rename = 221)] pub q119: u16, #[cbor(rename = 280)] pub q120: u16, #[cbor(rename = 339)] pub q121: u16, #[cbor(rename = 258)] pub q122: u16, #[cbor(rename = 317)] pub q123: u16, #[cbor(rename = 236)] pub q124: u16, #[cbor(rename = 295)] pub q125: u16, #[cbor(rename = 214)] pub q126: u16, #[cbor(rename = 273)] pub q127: u16, #[cbor(rename = 332)] pub q128: u16, #[cbor(rename = 251)] pub q129: u16, #[cbor(rename = 310)] pub q130: u16, #[cbor(rename = 229)] pub q131: u16, #[cbor(rename = 288)] pub q132: u16, #[cbor(rename = 207)] pub q133: u16, #[cbor(rename = 266)] pub q134: u16, #[cbor(rename = 325)] pub q135: u16, #[cbor(rename = 244)] pub q136: u16, #[cbor(rename = 303)] pub q137: u16, #[cbor(rename = 222)] pub q138: u16, #[cbor(rename = 281)] pub q139: u16 }
impl Subj for Many140 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(200), <u16 as Subj>::ty()), fld(M::U(259), <u16 as Subj>::ty()), fld(M::U(318), <u16 as Subj>::ty()), fld(M::U(237), <u16 as Subj>::ty()), fld(M::U(296), <u16 as Subj>::ty()), fld(M::U(215), <u16 as Subj>::ty()), fld(M::U(274), <u16 as Subj>::ty()), fld(M::U(333), <u16 as Subj>::ty()), fld(M::U(252), <u16 as Subj>::ty()), fld(M::U(311), <u16 as Subj>::ty()), fld(M::U(230), <u16 as Subj>::ty()), fld(M::U(289), <u16 as Subj>::ty()), fld(M::U(208), <u16 as Subj>::ty()), fld(M::U(267), <u16 as Subj>::ty()), fld(M::U(326), <u16 as Subj>::ty()), fld(M::U(245), <u16 as Subj>::ty()), fld(M::U(304), <u16 as Subj>::ty()), fld(M::U(223), <u16 as Subj>::ty()), fld(M::U(282), <u16 as Subj>::ty()), fld(M::U(201), <u16 as Subj>::ty()), fld(M::U(260), <u16 as Subj>::ty()), fld(M::U(319), <u16 as Subj>::ty()), fld(M::U(238), <u16 as Subj>::ty()), fld(M::U(297), <u16 as Subj>::ty()), fld(M::U(216), <u16 as Subj>::ty()), fld(M::U(275), <u16 as Subj>::ty()), fld(M::U(334), <u16 as Subj>::ty()), fld(M::U(253), <u16 as Subj>::ty()), fld(M::U(312), <u16 as Subj>::ty()), fld(M::U(231), <u16 as Subj>::ty()), fld(M::U(290), <u16 as Subj>::ty()), fld(M::U(209), <u16 as Subj>::ty()), fld(M::U(268), <u16 as Subj>::ty()), fld(M::U(327), <u16 as Subj>::ty()), fld(M::U(246), <u16 as Subj>::ty()), fld(M::U(305), <u16 as Subj>::ty()), fld(M::U(224), <u16 as Subj>::ty()), fld(M::U(283), <u16 as Subj>::ty()), fld(M::U(202), <u16 as Subj>::ty()), fld(M::U(261), <u16 as Subj>::ty()), fld(M::U(320), <u16 as Subj>::ty()), fld(M::U(239), <u16 as Subj>::ty()), fld(M::U(298), <u16 as Subj>::ty()), fld(M::U(217), <u16 as Subj>::ty()), fld(M::U(276), <u16 as Subj>::ty()), fld(M::U(335), <u16 as Subj>::ty()), fld(M::U(254), <u16 as Subj>::ty()), fld(M::U(313), <u16 as Subj>::ty()), fld(M::U(232), <u16 as Subj>::ty()), fld(M::U(291), <u16 as Subj>::ty()), fld(M::U(210), <u16 as Subj>::ty()), fld(M::U(269), <u16 as Subj>::ty()), fld(M::U(328), <u16 as Subj>::ty()), fld(M::U(247), <u16 as Subj>::ty()), fld(M::U(306), <u16 as Subj>::ty()), fld(M::U(225), <u16 as Subj>::ty()), fld(M::U(284), <u16 as Subj>::ty()), fld(M::U(203), <u16 as Subj>::ty()), fld(M::U(262), <u16 as Subj>::ty()), fld(M::U(321), <u16 as Subj>::ty()), fld(M::U(240), <u16 as Subj>::ty()), fld(M::U(299), <u16 as Subj>::ty()), fld(M::U(218), <u16 as Subj>::ty()), fld(M::U(277), <u16 as Subj>::ty()), fld(M::U(336), <u16 as Subj>::ty()), fld(M::U(255), <u16 as Subj>::ty()), fld(M::U(314), <u16 as Subj>::ty()), fld(M::U(233), <u16 as Subj>::ty()), fld(M::U(292), <u16 as Subj>::ty()), fld(M::U(211), <u16 as Subj>::ty()), fld(M::U(270), <u16 as Subj>::ty()), fld(M::U(329), <u16 as Subj>::ty()), fld(M::U(248), <u16 as Subj>::ty()), fld(M::U(307), <u16 as Subj>::ty()), fld(M::U(226), <u16 as Subj>::ty()), fld(M::U(285), <u16 as Subj>::ty()), fld(M::U(204), <u16 as Subj>::ty()), fld(M::U(263), <u16 as Subj>::ty()), fld(M::U(322), <u16 as Subj>::ty()), fld(M::U(241), <u16 as Subj>::ty()), fld(M::U(300), <u16 as Subj>::ty()), fld(M::U(219), <u16 as Subj>::ty()), fld(M::U(278), <u16 as Subj>::ty()), fld(M::U(337), <u16 as Subj>::ty()), fld(M::U(256), <u16 as Subj>::ty()), fld(M::U(315), <u16 as Subj>::ty()), fld(M::U(234), <u16 as Subj>::ty()), fld(M::U(293), <u16 as Subj>::ty()), fld(M::U(212), <u16 as Subj>::ty()), fld(M::U(271), <u16 as Subj>::ty()), fld(M::U(330), <u16 as Subj>::ty()), fld(M::U(249), <u16 as Subj>::ty()), fld(M::U(308), <u16 as Subj>::ty()), fld(M::U(227), <u16 as Subj>::ty()), fld(M::U(286), <u16 as Subj>::ty()), fld(M::U(205), <u16 as Subj>::ty()), fld(M::U(264), <u16 as Subj>::ty()), fld(M::U(323), <u16 as Subj>::ty()), fld(M::U(242), <u16 as Subj>::ty()), fld(M::U(301), <u16 as Subj>::ty()), fld(M::U(220), <u16 as Subj>::ty()), fld(M::U(279), <u16 as Subj>::ty()), fld(M::U(338), <u16 as Subj>::ty()), fld(M::U(257), <u16 as Subj>::ty()), fld(M::U(316), <u16 as Subj>::ty()), fld(M::U(235), <u16 as Subj>::ty()), fld(M::U(294), <u16 as Subj>::ty()), fld(M::U(213), <u16 as Subj>::ty()), fld(M::U(272), <u16 as Subj>::ty()), fld(M::U(331), <u16 as Subj>::ty()), fld(M::U(250), <u16 as Subj>::ty()), fld(M::U(309), <u16 as Subj>::ty()), fld(M::U(228), <u16 as Subj>::ty()), fld(M::U(287), <u16 as Subj>::ty()), fld(M::U(206), <u16 as Subj>::ty()), fld(M::U(265), <u16 as Subj>::ty()), fld(M::U(324), <u16 as Subj>::ty()), fld(M::U(243), <u16 as Subj>::ty()), fld(M::U(302), <u16 as Subj>::ty()), fld(M::U(221), <u16 as Subj>::ty()), fld(M::U(280), <u16 as Subj>::ty()), fld(M::U(339), <u16 as Subj>::ty()), fld(M::U(258), <u16 as Subj>::ty()), fld(M::U(317), <u16 as Subj>::ty()), fld(M::U(236), <u16 as Subj>::ty()), fld(M::U(295), <u16 as Subj>::ty()), fld(M::U(214), <u16 as Subj>::ty()), fld(M::U(273), <u16 as Subj>::ty()), fld(M::U(332), <u16 as Subj>::ty()), fld(M::U(251), <u16 as Subj>::ty()), fld(M::U(310), <u16 as Subj>::ty()), fld(M::U(229), <u16 as Subj>::ty()), fld(M::U(288), <u16 as Subj>::ty()), fld(M::U(207), <u16 as Subj>::ty()), fld(M::U(266), <u16 as Subj>::ty()), fld(M::U(325), <u16 as Subj>::ty()), fld(M::U(244), <u16 as Subj>::ty()), fld(M::U(303), <u16 as Subj>::ty()), fld(M::U(222), <u16 as Subj>::ty()), fld(M::U(281), <u16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Many140".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let Many140 { q0: x0, q1: x1, q2: x2, q3: x3, q4: x4, q5: x5, q6: x6, q7: x7, q8: x8, q9: x9, q10: x10, q11: x11, q12: x12, q13: x13, q14: x14, q15: x15, q16: x16, q17: x17, q18: x18, q19: x19, q20: x20, q21: x21, q22: x22, q23: x23, q24: x24, q25: x25, q26: x26, q27: x27, q28: x28, q29: x29, q30: x30, q31: x31, q32: x32, q33: x33, q34: x34, q35: x35, q36: x36, q37: x37, q38: x38, q39: x39, q40: x40, q41: x41, q42: x42, q43: x43, q44: x44, q45: x45, q46: x46, q47: x47, q48: x48, q49: x49, q50: x50, q51: x51, q52: x52, q53: x53, q54: x54, q55: x55, q56: x56, q57: x57, q58: x58, q59: x59, q60: x60, q61: x61, q62: x62, q63: x63, q64: x64, q65: x65, q66: x66, q67: x67, q68: x68, q69: x69, q70: x70, q71: x71, q72: x72, q73: x73, q74: x74, q75: x75, q76: x76, q77: x77, q78: x78, q79: x79, q80: x80, q81: x81, q82: x82, q83: x83, q84: x84, q85: x85, q86: x86, q87: x87, q88: x88, q89: x89, q90: x90, q91: x91, q92: x92, q93: x93, q94: x94, q95: x95, q96: x96, q97: x97, q98: x98, q99: x99, q100: x100, q101: x101, q102: x102, q103: x103, q104: x104, q105: x105, q106: x106, q107: x107, q108: x108, q109: x109, q110: x110, q111: x111, q112: x112, q113: x113, q114: x114, q115: x115, q116: x116, q117: x117, q118: x118, q119: x119, q120: x120, q121: x121, q122: x122, q123: x123, q124: x124, q125: x125, q126: x126, q127: x127, q128: x128, q129: x129, q130: x130, q131: x131, q132: x132, q133: x133, q134: x134, q135: x135, q136: x136, q137: x137, q138: x138, q139: x139 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d(), x32.to_d(), x33.to_d(), x34.to_d(), x35.to_d(), x36.to_d(), x37.to_d(), x38.to_d(), x39.to_d(), x40.to_d(), x41.to_d(), x42.to_d(), x43.to_d(), x44.to_d(), x45.to_d(), x46.to_d(), x47.to_d(), x48.to_d(), x49.to_d(), x50.to_d(), x51.to_d(), x52.to_d(), x53.to_d(), x54.to_d(), x55.to_d(), x56.to_d(), x57.to_d(), x58.to_d(), x59.to_d(), x60.to_d(), x61.to_d(), x62.to_d(), x63.to_d(), x64.to_d(), x65.to_d(), x66.to_d(), x67.to_d(), x68.to_d(), x69.to_d(), x70.to_d(), x71.to_d(), x72.to_d(), x73.to_d(), x74.to_d(), x75.to_d(), x76.to_d(), x77.to_d(), x78.to_d(), x79.to_d(), x80.to_d(), x81.to_d(), x82.to_d(), x83.to_d(), x84.to_d(), x85.to_d(), x86.to_d(), x87.to_d(), x88.to_d(), x89.to_d(), x90.to_d(), x91.to_d(), x92.to_d(), x93.to_d(), x94.to_d(), x95.to_d(), x96.to_d(), x97.to_d(), x98.to_d(), x99.to_d(), x100.to_d(), x101.to_d(), x102.to_d(), x103.to_d(), x104.to_d(), x105.to_d(), x106.to_d(), x107.to_d(), x108.to_d(), x109.to_d(), x110.to_d(), x111.to_d(), x112.to_d(), x113.to_d(), x114.to_d(), x115.to_d(), x116.to_d(), x117.to_d(), x118.to_d(), x119.to_d(), x120.to_d(), x121.to_d(), x122.to_d(), x123.to_d(), x124.to_d(), x125.to_d(), x126.to_d(), x127.to_d(), x128.to_d(), x129.to_d(), x130.to_d(), x131.to_d(), x132.to_d(), x133.to_d(), x134.to_d(), x135.to_d(), x136.to_d(), x137.to_d(), x138.to_d(), x139.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Many140 { q0: Subj::from_d(&v[0]), q1: Subj::from_d(&v[1]), q2: Subj::from_d(&v[2]), q3: Subj::from_d(&v[3]), q4: Subj::from_d(&v[4]), q5: Subj::from_d(&v[5]), q6: Subj::from_d(&v[6]), q7: Subj::from_d(&v[7]), q8: Subj::from_d(&v[8]), q9: Subj::from_d(&v[9]), q10: Subj::from_d(&v[10]), q11: Subj::from_d(&v[11]), q12: Subj::from_d(&v[12]), q13: Subj::from_d(&v[13]), q14: Subj::from_d(&v[14]), q15: Subj::from_d(&v[15]), q16: Subj::from_d(&v[16]), q17: Subj::from_d(&v[17]), q18: Subj::from_d(&v[18]), q19: Subj::from_d(&v[19]), q20: Subj::from_d(&v[20]), q21: Subj::from_d(&v[21]), q22: Subj::from_d(&v[22]), q23: Subj::from_d(&v[23]), q24: Subj::from_d(&v[24]), q25: Subj::from_d(&v[25]), q26: Subj::from_d(&v[26]), q27: Subj::from_d(&v[27]), q28: Subj::from_d(&v[28]), q29: Subj::from_d(&v[29]), q30: Subj::from_d(&v[30]), q31: Subj::from_d(&v[31]), q32: Subj::from_d(&v[32]), q33: Subj::from_d(&v[33]), q34: Subj::from_d(&v[34]), q35: Subj::from_d(&v[35]), q36: Subj::from_d(&v[36]), q37: Subj::from_d(&v[37]), q38: Subj::from_d(&v[38]), q39: Subj::from_d(&v[39]), q40: Subj::from_d(&v[40]), q41: Subj::from_d(&v[41]), q42: Subj::from_d(&v[42]), q43: Subj::from_d(&v[43]), q44: Subj::from_d(&v[44]), q45: Subj::from_d(&v[45]), q46: Subj::from_d(&v[46]), q47: Subj::from_d(&v[47]), q48: Subj::from_d(&v[48]), q49: Subj::from_d(&v[49]), q50: Subj::from_d(&v[50]), q51: Subj::from_d(&v[51]), q52: Subj::from_d(&v[52]), q53: Subj::from_d(&v[53]), q54: Subj::from_d(&v[54]), q55: Subj::from_d(&v[55]), q56: Subj::from_d(&v[56]), q57: Subj::from_d(&v[57]), q58: Subj::from_d(&v[58]), q59: Subj::from_d(&v[59]), q60: Subj::from_d(&v[60]), q61: Subj::from_d(&v[61]), q62: Subj::from_d(&v[62]), q63: Subj::from_d(&v[63]), q64: Subj::from_d(&v[64]), q65: Subj::from_d(&v[65]), q66: Subj::from_d(&v[66]), q67: Subj::from_d(&v[67]), q68: Subj::from_d(&v[68]), q69: Subj::from_d(&v[69]), q70: Subj::from_d(&v[70]), q71: Subj::from_d(&v[71]), q72: Subj::from_d(&v[72]), q73: Subj::from_d(&v[73]), q74: Subj::from_d(&v[74]), q75: Subj::from_d(&v[75]), q76: Subj::from_d(&v[76]), q77: Subj::from_d(&v[77]), q78: Subj::from_d(&v[78]), q79: Subj::from_d(&v[79]), q80: Subj::from_d(&v[80]), q81: Subj::from_d(&v[81]), q82: Subj::from_d(&v[82]), q83: Subj::from_d(&v[83]), q84: Subj::from_d(&v[84]), q85: Subj::from_d(&v[85]), q86: Subj::from_d(&v[86]), q87: Subj::from_d(&v[87]), q88: Subj::from_d(&v[88]), q89: Subj::from_d(&v[89]), q90: Subj::from_d(&v[90]), q91: Subj::from_d(&v[91]), q92: Subj::from_d(&v[92]), q93: Subj::from_d(&v[93]), q94: Subj::from_d(&v[94]), q95: Subj::from_d(&v[95]), q96: Subj::from_d(&v[96]), q97: Subj::from_d(&v[97]), q98: Subj::from_d(&v[98]), q99: Subj::from_d(&v[99]), q100: Subj::from_d(&v[100]), q101: Subj::from_d(&v[101]), q102: Subj::from_d(&v[102]), q103: Subj::from_d(&v[103]), q104: Subj::from_d(&v[104]), q105: Subj::from_d(&v[105]), q106: Subj::from_d(&v[106]), q107: Subj::from_d(&v[107]), q108: Subj::from_d(&v[108]), q109: Subj::from_d(&v[109]), q110: Subj::from_d(&v[110]), q111: Subj::from_d(&v[111]), q112: Subj::from_d(&v[112]), q113: Subj::from_d(&v[113]), q114: Subj::from_d(&v[114]), q115: Subj::from_d(&v[115]), q116: Subj::from_d(&v[116]), q117: Subj::from_d(&v[117]), q118: Subj::from_d(&v[118]), q119: Subj::from_d(&v[119]), q120: Subj::from_d(&v[120]), q121: Subj::from_d(&v[121]), q122: Subj::from_d(&v[122]), q123: Subj::from_d(&v[123]), q124: Subj::from_d(&v[124]), q125: Subj::from_d(&v[125]), q126: Subj::from_d(&v[126]), q127: Subj::from_d(&v[127]), q128: Subj::from_d(&v[128]), q129: Subj::from_d(&v[129]), q130: Subj::from_d(&v[130]), q131: Subj::from_d(&v[131]), q132: Subj::from_d(&v[132]), q133: Subj::from_d(&v[133]), q134: Subj::from_d(&v[134]), q135: Subj::from_d(&v[135]), q136: Subj::from_d(&v[136]), q137: Subj::from_d(&v[137]), q138: Subj::from_d(&v[138]), q139: Subj::from_d(&v[139]) }
    }
}
impl Default for Many140 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Many260T(pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8);
impl Subj for Many260T {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Many260T".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Many260T(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29, x30, x31, x32, x33, x34, x35, x36, x37, x38, x39, x40, x41, x42, x43, x44, x45, x46, x47, x48, x49, x50, x51, x52, x53, x54, x55, x56, x57, x58, x59, x60, x61, x62, x63, x64, x65, x66, x67, x68, x69, x70, x71, x72, x73, x74, x75, x76, x77, x78, x79, x80, x81, x82, x83, x84, x85, x86, x87, x88, x89, x90, x91, x92, x93, x94, x95, x96, x97, x98, x99, x100, x101, x102, x103, x104, x105, x106, x107, x108, x109, x110, x111, x112, x113, x114, x115, x116, x117, x118, x119, x120, x121, x122, x123, x124, x125, x126, x127, x128, x129, x130, x131, x132, x133, x134, x135, x136, x137, x138, x139, x140, x141, x142, x143, x144, x145, x146, x147, x148, x149, x150, x151, x152, x153, x154, x155, x156, x157, x158, x159, x160, x161, x162, x163, x164, x165, x166, x167, x168, x169, x170, x171, x172, x173, x174, x175, x176, x177, x178, x179, x180, x181, x182, x183, x184, x185, x186, x187, x188, x189, x190, x191, x192, x193, x194, x195, x196, x197, x198, x199, x200, x201, x202, x203, x204, x205, x206, x207, x208, x209, x210, x211, x212, x213, x214, x215, x216, x217, x218, x219, x220, x221, x222, x223, x224, x225, x226, x227, x228, x229, x230, x231, x232, x233, x234, x235, x236, x237, x238, x239, x240, x241, x242, x243, x244, x245, x246, x247, x248, x249, x250, x251, x252, x253, x254, x255, x256, x257, x258, x259) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d(), x32.to_d(), x33.to_d(), x34.to_d(), x35.to_d(), x36.to_d(), x37.to_d(), x38.to_d(), x39.to_d(), x40.to_d(), x41.to_d(), x42.to_d(), x43.to_d(), x44.to_d(), x45.to_d(), x46.to_d(), x47.to_d(), x48.to_d(), x49.to_d(), x50.to_d(), x51.to_d(), x52.to_d(), x53.to_d(), x54.to_d(), x55.to_d(), x56.to_d(), x57.to_d(), x58.to_d(), x59.to_d(), x60.to_d(), x61.to_d(), x62.to_d(), x63.to_d(), x64.to_d(), x65.to_d(), x66.to_d(), x67.to_d(), x68.to_d(), x69.to_d(), x70.to_d(), x71.to_d(), x72.to_d(), x73.to_d(), x74.to_d(), x75.to_d(), x76.to_d(), x77.to_d(), x78.to_d(), x79.to_d(), x80.to_d(), x81.to_d(), x82.to_d(), x83.to_d(), x84.to_d(), x85.to_d(), x86.to_d(), x87.to_d(), x88.to_d(), x89.to_d(), x90.to_d(), x91.to_d(), x92.to_d(), x93.to_d(), x94.to_d(), x95.to_d(), x96.to_d(), x97.to_d(), x98.to_d(), x99.to_d(), x100.to_d(), x101.to_d(), x102.to_d(), x103.to_d(), x104.to_d(), x105.to_d(), x106.to_d(), x107.to_d(), x108.to_d(), x109.to_d(), x110.to_d(), x111.to_d(), x112.to_d(), x113.to_d(), x114.to_d(), x115.to_d(), x116.to_d(), x117.to_d(), x118.to_d(), x119.to_d(), x120.to_d(), x121.to_d(), x122.to_d(), x123.to_d(), x124.to_d(), x125.to_d(), x126.to_d(), x127.to_d(), x128.to_d(), x129.to_d(), x130.to_d(), x131.to_d(), x132.to_d(), x133.to_d(), x134.to_d(), x135.to_d(), x136.to_d(), x137.to_d(), x138.to_d(), x139.to_d(), x140.to_d(), x141.to_d(), x142.to_d(), x143.to_d(), x144.to_d(), x145.to_d(), x146.to_d(), x147.to_d(), x148.to_d(), x149.to_d(), x150.to_d(), x151.to_d(), x152.to_d(), x153.to_d(), x154.to_d(), x155.to_d(), x156.to_d(), x157.to_d(), x158.to_d(), x159.to_d(), x160.to_d(), x161.to_d(), x162.to_d(), x163.to_d(), x164.to_d(), x165.to_d(), x166.to_d(), x167.to_d(), x168.to_d(), x169.to_d(), x170.to_d(), x171.to_d(), x172.to_d(), x173.to_d(), x174.to_d(), x175.to_d(), x176.to_d(), x177.to_d(), x178.to_d(), x179.to_d(), x180.to_d(), x181.to_d(), x182.to_d(), x183.to_d(), x184.to_d(), x185.to_d(), x186.to_d(), x187.to_d(), x188.to_d(), x189.to_d(), x190.to_d(), x191.to_d(), x192.to_d(), x193.to_d(), x194.to_d(), x195.to_d(), x196.to_d(), x197.to_d(), x198.to_d(), x199.to_d(), x200.to_d(), x201.to_d(), x202.to_d(), x203.to_d(), x204.to_d(), x205.to_d(), x206.to_d(), x207.to_d(), x208.to_d(), x209.to_d(), x210.to_d(), x211.to_d(), x212.to_d(), x213.to_d(), x214.to_d(), x215.to_d(), x216.to_d(), x217.to_d(), x218.to_d(), x219.to_d(), x220.to_d(), x221.to_d(), x222.to_d(), x223.to_d(), x224.to_d(), x225.to_d(), x226.to_d(), x227.to_d(), x228.to_d(), x229.to_d(), x230.to_d(), x231.to_d(), x232.to_d(), x233.to_d(), x234.to_d(), x235.to_d(), x236.to_d(), x237.to_d(), x238.to_d(), x239.to_d(), x240.to_d(), x241.to_d(), x242.to_d(), x243.to_d(), x244.to_d(), x245.to_d(), x246.to_d(), x247.to_d(), x248.to_d(), x249.to_d(), x250.to_d(), x251.to_d(), x252.to_d(), x253.to_d(), x254.to_d(), x255.to_d(), x256.to_d(), x257.to_d(), x258.to_d(), x259.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Many260T(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]), Subj::from_d(&v[3]), Subj::from_d(&v[4]), Subj::from_d(&v[5]), Subj::from_d(&v[6]), Subj::from_d(&v[7]), Subj::from_d(&v[8]), Subj::from_d(&v[9]), Subj::from_d(&v[10]), Subj::from_d(&v[11]), Subj::from_d(&v[12]), Subj::from_d(&v[13]), Subj::from_d(&v[14]), Subj::from_d(&v[15]), Subj::from_d(&v[16]), Subj::from_d(&v[17]), Subj::from_d(&v[18]), Subj::from_d(&v[19]), Subj::from_d(&v[20]), Subj::from_d(&v[21]), Subj::from_d(&v[22]), Subj::from_d(&v[23]), Subj::from_d(&v[24]), Subj::from_d(&v[25]), Subj::from_d(&v[26]), Subj::from_d(&v[27]), Subj::from_d(&v[28]), Subj::from_d(&v[29]), Subj::from_d(&v[30]), Subj::from_d(&v[31]), Subj::from_d(&v[32]), Subj::from_d(&v[33]), Subj::from_d(&v[34]), Subj::from_d(&v[35]), Subj::from_d(&v[36]), Subj::from_d(&v[37]), Subj::from_d(&v[38]), Subj::from_d(&v[39]), Subj::from_d(&v[40]), Subj::from_d(&v[41]), Subj::from_d(&v[42]), Subj::from_d(&v[43]), Subj::from_d(&v[44]), Subj::from_d(&v[45]), Subj::from_d(&v[46]), Subj::from_d(&v[47]), Subj::from_d(&v[48]), Subj::from_d(&v[49]), Subj::from_d(&v[50]), Subj::from_d(&v[51]), Subj::from_d(&v[52]), Subj::from_d(&v[53]), Subj::from_d(&v[54]), Subj::from_d(&v[55]), Subj::from_d(&v[56]), Subj::from_d(&v[57]), Subj::from_d(&v[58]), Subj::from_d(&v[59]), Subj::from_d(&v[60]), Subj::from_d(&v[61]), Subj::from_d(&v[62]), Subj::from_d(&v[63]), Subj::from_d(&v[64]), Subj::from_d(&v[65]), Subj::from_d(&v[66]), Subj::from_d(&v[67]), Subj::from_d(&v[68]), Subj::from_d(&v[69]), Subj::from_d(&v[70]), Subj::from_d(&v[71]), Subj::from_d(&v[72]), Subj::from_d(&v[73]), Subj::from_d(&v[74]), Subj::from_d(&v[75]), Subj::from_d(&v[76]), Subj::from_d(&v[77]), Subj::from_d(&v[78]), Subj::from_d(&v[79]), Subj::from_d(&v[80]), Subj::from_d(&v[81]), Subj::from_d(&v[82]), Subj::from_d(&v[83]), Subj::from_d(&v[84]), Subj::from_d(&v[85]), Subj::from_d(&v[86]), Subj::from_d(&v[87]), Subj::from_d(&v[88]), Subj::from_d(&v[89]), Subj::from_d(&v[90]), Subj::from_d(&v[91]), Subj::from_d(&v[92]), Subj::from_d(&v[93]), Subj::from_d(&v[94]), Subj::from_d(&v[95]), Subj::from_d(&v[96]), Subj::from_d(&v[97]), Subj::from_d(&v[98]), Subj::from_d(&v[99]), Subj::from_d(&v[100]), Subj::from_d(&v[101]), Subj::from_d(&v[102]), Subj::from_d(&v[103]), Subj::from_d(&v[104]), Subj::from_d(&v[105]), Subj::from_d(&v[106]), Subj::from_d(&v[107]), Subj::from_d(&v[108]), Subj::from_d(&v[109]), Subj::from_d(&v[110]), Subj::from_d(&v[111]), Subj::from_d(&v[112]), Subj::from_d(&v[113]), Subj::from_d(&v[114]), Subj::from_d(&v[115]), Subj::from_d(&v[116]), Subj::from_d(&v[117]), Subj::from_d(&v[118]), Subj::from_d(&v[119]), Subj::from_d(&v[120]), Subj::from_d(&v[121]), Subj::from_d(&v[122]), Subj::from_d(&v[123]), Subj::from_d(&v[124]), Subj::from_d(&v[125]), Subj::from_d(&v[126]), Subj::from_d(&v[127]), Subj::from_d(&v[128]), Subj::from_d(&v[129]), Subj::from_d(&v[130]), Subj::from_d(&v[131]), Subj::from_d(&v[132]), Subj::from_d(&v[133]), Subj::from_d(&v[134]), Subj::from_d(&v[135]), Subj::from_d(&v[136]), Subj::from_d(&v[137]), Subj::from_d(&v[138]), Subj::from_d(&v[139]), Subj::from_d(&v[140]), Subj::from_d(&v[141]), Subj::from_d(&v[142]), Subj::from_d(&v[143]), Subj::from_d(&v[144]), Subj::from_d(&v[145]), Subj::from_d(&v[146]), Subj::from_d(&v[147]), Subj::from_d(&v[148]), Subj::from_d(&v[149]), Subj::from_d(&v[150]), Subj::from_d(&v[151]), Subj::from_d(&v[152]), Subj::from_d(&v[153]), Subj::from_d(&v[154]), Subj::from_d(&v[155]), Subj::from_d(&v[156]), Subj::from_d(&v[157]), Subj::from_d(&v[158]), Subj::from_d(&v[159]), Subj::from_d(&v[160]), Subj::from_d(&v[161]), Subj::from_d(&v[162]), Subj::from_d(&v[163]), Subj::from_d(&v[164]), Subj::from_d(&v[165]), Subj::from_d(&v[166]), Subj::from_d(&v[167]), Subj::from_d(&v[168]), Subj::from_d(&v[169]), Subj::from_d(&v[170]), Subj::from_d(&v[171]), Subj::from_d(&v[172]), Subj::from_d(&v[173]), Subj::from_d(&v[174]), Subj::from_d(&v[175]), Subj::from_d(&v[176]), Subj::from_d(&v[177]), Subj::from_d(&v[178]), Subj::from_d(&v[179]), Subj::from_d(&v[180]), Subj::from_d(&v[181]), Subj::from_d(&v[182]), Subj::from_d(&v[183]), Subj::from_d(&v[184]), Subj::from_d(&v[185]), Subj::from_d(&v[186]), Subj::from_d(&v[187]), Subj::from_d(&v[188]), Subj::from_d(&v[189]), Subj::from_d(&v[190]), Subj::from_d(&v[191]), Subj::from_d(&v[192]), Subj::from_d(&v[193]), Subj::from_d(&v[194]), Subj::from_d(&v[195]), Subj::from_d(&v[196]), Subj::from_d(&v[197]), Subj::from_d(&v[198]), Subj::from_d(&v[199]), Subj::from_d(&v[200]), Subj::from_d(&v[201]), Subj::from_d(&v[202]), Subj::from_d(&v[203]), Subj::from_d(&v[204]), Subj::from_d(&v[205]), Subj::from_d(&v[206]), Subj::from_d(&v[207]), Subj::from_d(&v[208]), Subj::from_d(&v[209]), Subj::from_d(&v[210]), Subj::from_d(&v[211]), Subj::from_d(&v[212]), Subj::from_d(&v[213]), Subj::from_d(&v[214]), Subj::from_d(&v[215]), Subj::from_d(&v[216]), Subj::from_d(&v[217]), Subj::from_d(&v[218]), Subj::from_d(&v[219]), Subj::from_d(&v[220]), Subj::from_d(&v[221]), Subj::from_d(&v[222]), Subj::from_d(&v[223]), Subj::from_d(&v[224]), Subj::from_d(&v[225]), Subj::from_d(&v[226]), Subj::from_d(&v[227]), Subj::from_d(&v[228]), Subj::from_d(&v[229]), Subj::from_d(&v[230]), Subj::from_d(&v[231]), Subj::from_d(&v[232]), Subj::from_d(&v[233]), Subj::from_d(&v[234]), Subj::from_d(&v[235]), Subj::from_d(&v[236]), Subj::from_d(&v[237]), Subj::from_d(&v[238]), Subj::from_d(&v[239]), Subj::from_d(&v[240]), Subj::from_d(&v[241]), Subj::from_d(&v[242]), Subj::from_d(&v[243]), Subj::from_d(&v[244]), Subj::from_d(&v[245]), Subj::from_d(&v[246]), Subj::from_d(&v[247]), Subj::from_d(&v[248]), Subj::from_d(&v[249]), Subj::from_d(&v[250]), Subj::from_d(&v[251]), Subj::from_d(&v[252]), Subj::from_d(&v[253]), Subj::from_d(&v[254]), Subj::from_d(&v[255]), Subj::from_d(&v[256]), Subj::from_d(&v[257]), Subj::from_d(&v[258]), Subj::from_d(&v[259]))
    }
}
impl Default for Many260T {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Many40S { pub f0: u8, #[cbor(skip)] pub f1: u8, pub f2: u8, #[cbor(skip)] pub f3: u8, pub f4: u8, #[cbor(skip)] pub f5: u8, pub f6: u8, #[cbor(skip)] pub f7: u8, pub f8: u8, #[cbor(skip)] pub f9: u8, pub f10: u8, #[cbor(skip)] pub f11: u8, pub f12: u8, #[cbor(skip)] pub f13: u8, pub f14: u8, #[cbor(skip)] pub f15: u8, pub f16: u8, #[cbor(skip)] pub f17: u8, pub f18: u8, #[cbor(skip)] pub f19: u8, pub f20: u8, #[cbor(skip)] pub f21: u8, pub f22: u8, #[cbor(skip)] pub f23: u8, pub f24: u8, #[cbor(skip)] pub f25: u8, pub f26: u8, #[cbor(skip)] pub f27: u8, pub f28: u8, #[cbor(skip)] pub f29: u8, pub f30: u8, #[cbor(skip)] pub f31: u8, pub f32: u8, #[cbor(skip)] pub f33: u8, pub f34: u8, #[cbor(skip)] pub f35: u8, pub f36: u8, #[cbor(skip)] pub f37: u8, pub f38: u8, #[cbor(skip)] pub f39: u8 }
impl Subj for Many40S {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f0"), <u8 as Subj>::ty()), fld(t("f1"), <u8 as Subj>::ty()).skipped(), fld(t("f2"), <u8 as Subj>::ty()), fld(t("f3"), <u8 as Subj>::ty()).skipped(), fld(t("f4"), <u8 as Subj>::ty()), fld(t("f5"), <u8 as Subj>::ty()).skipped(), fld(t("f6"), <u8 as Subj>::ty()), fld(t("f7"), <u8 as Subj>::ty()).skipped(), fld(t("f8"), <u8 as Subj>::ty()), fld(t("f9"), <u8 as Subj>::ty()).skipped(), fld(t("f10"), <u8 as Subj>::ty()), fld(t("f11"), <u8 as Subj>::ty()).skipped(), fld(t("f12"), <u8 as Subj>::ty()), fld(t("f13"), <u8 as Subj>::ty()).skipped(), fld(t("f14"), <u8 as Subj>::ty()), fld(t("f15"), <u8 as Subj>::ty()).skipped(), fld(t("f16"), <u8 as Subj>::ty()), fld(t("f17"), <u8 as Subj>::ty()).skipped(), fld(t("f18"), <u8 as Subj>::ty()), fld(t("f19"), <u8 as Subj>::ty()).skipped(), fld(t("f20"), <u8 as Subj>::ty()), fld(t("f21"), <u8 as Subj>::ty()).skipped(), fld(t("f22"), <u8 as Subj>::ty()), fld(t("f23"), <u8 as Subj>::ty()).skipped(), fld(t("f24"), <u8 as Subj>::ty()), fld(t("f25"), <u8 as Subj>::ty()).skipped(), fld(t("f26"), <u8 as Subj>::ty()), fld(t("f27"), <u8 as Subj>::ty()).skipped(), fld(t("f28"), <u8 as Subj>::ty()), fld(t("f29"), <u8 as Subj>::ty()).skipped(), fld(t("f30"), <u8 as Subj>::ty()), fld(t("f31"), <u8 as Subj>::ty()).skipped(), fld(t("f32"), <u8 as Subj>::ty()), fld(t("f33"), <u8 as Subj>::ty()).skipped(), fld(t("f34"), <u8 as Subj>::ty()), fld(t("f35"), <u8 as Subj>::ty()).skipped(), fld(t("f36"), <u8 as Subj>::ty()), fld(t("f37"), <u8 as Subj>::ty()).skipped(), fld(t("f38"), <u8 as Subj>::ty()), fld(t("f39"), <u8 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Many40S".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Many40S { f0: x0, f1: x1, f2: x2, f3: x3, f4: x4, f5: x5, f6: x6, f7: x7, f8: x8, f9: x9, f10: x10, f11: x11, f12: x12, f13: x13, f14: x14, f15: x15, f16: x16, f17: x17, f18: x18, f19: x19, f20: x20, f21: x21, f22: x22, f23: x23, f24: x24, f25: x25, f26: x26, f27: x27, f28: x28, f29: x29, f30: x30, f31: x31, f32: x32, f33: x33, f34: x34, f35: x35, f36: x36, f37: x37, f38: x38, f39: x39 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d(), x32.to_d(), x33.to_d(), x34.to_d(), x35.to_d(), x36.to_d(), x37.to_d(), x38.to_d(), x39.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Many40S { f0: Subj::from_d(&v[0]), f1: Subj::from_d(&v[1]), f2: Subj::from_d(&v[2]), f3: Subj::from_d(&v[3]), f4: Subj::from_d(&v[4]), f5: Subj::from_d(&v[5]), f6: Subj::from_d(&v[6]), f7: Subj::from_d(&v[7]), f8: Subj::from_d(&v[8]), f9: Subj::from_d(&v[9]), f10: Subj::from_d(&v[10]), f11: Subj::from_d(&v[11]), f12: Subj::from_d(&v[12]), f13: Subj::from_d(&v[13]), f14: Subj::from_d(&v[14]), f15: Subj::from_d(&v[15]), f16: Subj::from_d(&v[16]), f17: Subj::from_d(&v[17]), f18: Subj::from_d(&v[18]), f19: Subj::from_d(&v[19]), f20: Subj::from_d(&v[20]), f21: Subj::from_d(&v[21]), f22: Subj::from_d(&v[22]), f23: Subj::from_d(&v[23]), f24: Subj::from_d(&v[24]), f25: Subj::from_d(&v[25]), f26: Subj::from_d(&v[26]), f27: Subj::from_d(&v[27]), f28: Subj::from_d(&v[28]), f29: Subj::from_d(&v[29]), f30: Subj::from_d(&v[30]), f31: Subj::from_d(&v[31]), f32: Subj::from_d(&v[32]), f33: Subj::from_d(&v[33]), f34: Subj::from_d(&v[34]), f35: Subj::from_d(&v[35]), f36: Subj::from_d(&v[36]), f37: Subj::from_d(&v[37]), f38: Subj::from_d(&v[38]), f39: Subj::from_d(&v[39]) }
    }
}
impl Default for Many40S {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Names { pub fields: u8, pub it: u8, pub value: u8, pub v: u8, pub key: u8, pub map: u8, pub items: u8, pub inner: u8, pub array: u8, pub tag: u8, pub result: u8, pub index: u8, pub decoded: u8, pub item: u8, pub x: u8, pub a: u8, pub f: u8, pub field: u8, pub other: u8, pub name: u8, pub values: u8, pub iter: u8, pub __cbor: u8, pub __a0: u8, pub __a1: u8, pub vec: u8, pub none: u8, pub default: u8, pub try_default: u8, pub into_cbor_value: u8, pub std: u8, pub core: u8, pub oasis_cbor: u8, pub u8: u8 }
impl Subj for Names {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("fields"), <u8 as Subj>::ty()), fld(t("it"), <u8 as Subj>::ty()), fld(t("value"), <u8 as Subj>::ty()), fld(t("v"), <u8 as Subj>::ty()), fld(t("key"), <u8 as Subj>::ty()), fld(t("map"), <u8 as Subj>::ty()), fld(t("items"), <u8 as Subj>::ty()), fld(t("inner"), <u8 as Subj>::ty()), fld(t("array"), <u8 as Subj>::ty()), fld(t("tag"), <u8 as Subj>::ty()), fld(t("result"), <u8 as Subj>::ty()), fld(t("index"), <u8 as Subj>::ty()), fld(t("decoded"), <u8 as Subj>::ty()), fld(t("item"), <u8 as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()), fld(t("f"), <u8 as Subj>::ty()), fld(t("field"), <u8 as Subj>::ty()), fld(t("other"), <u8 as Subj>::ty()), fld(t("name"), <u8 as Subj>::ty()), fld(t("values"), <u8 as Subj>::ty()), fld(t("iter"), <u8 as Subj>::ty()), fld(t("__cbor"), <u8 as Subj>::ty()), fld(t("__a0"), <u8 as Subj>::ty()), fld(t("__a1"), <u8 as Subj>::ty()), fld(t("vec"), <u8 as Subj>::ty()), fld(t("none"), <u8 as Subj>::ty()), fld(t("default"), <u8 as Subj>::ty()), fld(t("try_default"), <u8 as Subj>::ty()), fld(t("into_cbor_value"), <u8 as Subj>::ty()), fld(t("std"), <u8 as Subj>::ty()), fld(t("core"), <u8 as Subj>::ty()), fld(t("oasis_cbor"), <u8 as Subj>::ty()), fld(t("u8"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Names".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Names { fields: x0, it: x1, value: x2, v: x3, key: x4, map: x5, items: x6, inner: x7, array: x8, tag: x9, result: x10, index: x11, decoded: x12, item: x13, x: x14, a: x15, f: x16, field: x17, other: x18, name: x19, values: x20, iter: x21, __cbor: x22, __a0: x23, __a1: x24, vec: x25, none: x26, default: x27, try_default: x28, into_cbor_value: x29, std: x30, core: x31, oasis_cbor: x32, u8: x33 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d(), x32.to_d(), x33.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Names { fields: Subj::from_d(&v[0]), it: Subj::from_d(&v[1]), value: Subj::from_d(&v[2]), v: Subj::from_d(&v[3]), key: Subj::from_d(&v[4]), map: Subj::from_d(&v[5]), items: Subj::from_d(&v[6]), inner: Subj::from_d(&v[7]), array: Subj::from_d(&v[8]), tag: Subj::from_d(&v[9]), result: Subj::from_d(&v[10]), index: Subj::from_d(&v[11]), decoded: Subj::from_d(&v[12]), item: Subj::from_d(&v[13]), x: Subj::from_d(&v[14]), a: Subj::from_d(&v[15]), f: Subj::from_d(&v[16]), field: Subj::from_d(&v[17]), other: Subj::from_d(&v[18]), name: Subj::from_d(&v[19]), values: Subj::from_d(&v[20]), iter: Subj::from_d(&v[21]), __cbor: Subj::from_d(&v[22]), __a0: Subj::from_d(&v[23]), __a1: Subj::from_d(&v[24]), vec: Subj::from_d(&v[25]), none: Subj::from_d(&v[26]), default: Subj::from_d(&v[27]), try_default: Subj::from_d(&v[28]), into_cbor_value: Subj::from_d(&v[29]), std: Subj::from_d(&v[30]), core: Subj::from_d(&v[31]), oasis_cbor: Subj::from_d(&v[32]), u8: Subj::from_d(&v[33]) }
    }
}
impl Default for Names {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct NamesL { #[cbor(optional)] pub u8: Option<u8>, #[cbor(optional)] pub oasis_cbor: Option<u8>, #[cbor(optional)] pub core: Option<u8>, #[cbor(optional)] pub std: Option<u8>, #[cbor(optional)] pub into_cbor_value: Option<u8>, #[cbor(optional)] pub try_default: Option<u8>, #[cbor(optional)] pub default: Option<u8>, #[cbor(optional)] pub none: Option<u8>, #[cbor(optional)] pub vec: Option<u8>, #[cbor(optional)] pub __a1: Option<u8>, #[cbor(optional)] pub __a0: Option<u8>, #[cbor(optional)] pub __cbor: Option<u8>, #[cbor(optional)] pub iter: Option<u8>, #[cbor(optional)] pub values: Option<u8>, #[cbor(optional)] pub name: Option<u8>, #[cbor(optional)] pub other: Option<u8>, #[cbor(optional)] pub field: Option<u8>, #[cbor(optional)] pub f: Option<u8>, #[cbor(optional)] pub a: Option<u8>, #[cbor(optional)] pub x: Option<u8>, #[cbor(optional)] pub item: Option<u8>, #[cbor(optional)] pub decoded: Option<u8>, #[cbor(optional)] pub index: Option<u8>, #[cbor(optional)] pub result: Option<u8>, #[cbor(optional)] pub tag: Option<u8>, #[cbor(optional)] pub array: Option<u8>, #[cbor(optional)] pub inner: Option<u8>, #[cbor(optional)] pub items: Option<u8>, #[cbor(optional)] pub map: Option<u8>, #[cbor(optional)] pub key: Option<u8>, #[cbor(optional)] pub v: Option<u8>, #[cbor(optional)] pub value: Option<u8>, #[cbor(optional)] pub it: Option<u8>, #[cbor(optional)] pub fields: Option<u8> }
impl Subj for NamesL {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("u8"), <Option<u8> as Subj>::ty()).opt(), fld(t("oasis_cbor"), <Option<u8> as Subj>::ty()).opt(), fld(t("core"), <Option<u8> as Subj>::ty()).opt(), fld(t("std"), <Option<u8> as Subj>::ty()).opt(), fld(t("into_cbor_value"), <Option<u8> as Subj>::ty()).opt(), fld(t("try_default"), <Option<u8> as Subj>::ty()).opt(), fld(t("default"), <Option<u8> as Subj>::ty()).opt(), fld(t("none"), <Option<u8> as Subj>::ty()).opt(), fld(t("vec"), <Option<u8> as Subj>::ty()).opt(), fld(t("__a1"), <Option<u8> as Subj>::ty()).opt(), fld(t("__a0"), <Option<u8> as Subj>::ty()).opt(), fld(t("__cbor"), <Option<u8> as Subj>::ty()).opt(), fld(t("iter"), <Option<u8> as Subj>::ty()).opt(), fld(t("values"), <Option<u8> as Subj>::ty()).opt(), fld(t("name"), <Option<u8> as Subj>::ty()).opt(), fld(t("other"), <Option<u8> as Subj>::ty()).opt(), fld(t("field"), <Option<u8> as Subj>::ty()).opt(), fld(t("f"), <Option<u8> as Subj>::ty()).opt(), fld(t("a"), <Option<u8> as Subj>::ty()).opt(), fld(t("x"), <Option<u8> as Subj>::ty()).opt(), fld(t("item"), <Option<u8> as Subj>::ty()).opt(), fld(t("decoded"), <Option<u8> as Subj>::ty()).opt(), fld(t("index"), <Option<u8> as Subj>::ty()).opt(), fld(t("result"), <Option<u8> as Subj>::ty()).opt(), fld(t("tag"), <Option<u8> as Subj>::ty()).opt(), fld(t("array"), <Option<u8> as Subj>::ty()).opt(), fld(t("inner"), <Option<u8> as Subj>::ty()).opt(), fld(t("items"), <Option<u8> as Subj>::ty()).opt(), fld(t("map"), <Option<u8> as Subj>::ty()).opt(), fld(t("key"), <Option<u8> as Subj>::ty()).opt(), fld(t("v"), <Option<u8> as Subj>::ty()).opt(), fld(t("value"), <Option<u8> as Subj>::ty()).opt(), fld(t("it"), <Option<u8> as Subj>::ty()).opt(), fld(t("fields"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NamesL".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let NamesL { u8: x0, oasis_cbor: x1, core: x2, std: x3, into_cbor_value: x4, try_default: x5, default: x6, none: x7, vec: x8, __a1: x9, __a0: x10, __cbor: x11, iter: x12, values: x13, name: x14, other: x15, field: x16, f: x17, a: x18, x: x19, item: x20, decoded: x21, index: x22, result: x23, tag: x24, array: x25, inner: x26, items: x27, map: x28, key: x29, v: x30, value: x31, it: x32, fields: x33 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d(), x32.to_d(), x33.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NamesL { u8: Subj::from_d(&v[0]), oasis_cbor: Subj::from_d(&v[1]), core: Subj::from_d(&v[2]), std: Subj::from_d(&v[3]), into_cbor_value: Subj::from_d(&v[4]), try_default: Subj::from_d(&v[5]), default: Subj::from_d(&v[6]), none: Subj::from_d(&v[7]), vec: Subj::from_d(&v[8]), __a1: Subj::from_d(&v[9]), __a0: Subj::from_d(&v[10]), __cbor: Subj::from_d(&v[11]), iter: Subj::from_d(&v[12]), values: Subj::from_d(&v[13]), name: Subj::from_d(&v[14]), other: Subj::from_d(&v[15]), field: Subj::from_d(&v[16]), f: Subj::from_d(&v[17]), a: Subj::from_d(&v[18]), x: Subj::from_d(&v[19]), item: Subj::from_d(&v[20]), decoded: Subj::from_d(&v[21]), index: Subj::from_d(&v[22]), result: Subj::from_d(&v[23]), tag: Subj::from_d(&v[24]), array: Subj::from_d(&v[25]), inner: Subj::from_d(&v[26]), items: Subj::from_d(&v[27]), map: Subj::from_d(&v[28]), key: Subj::from_d(&v[29]), v: Subj::from_d(&v[30]), value: Subj::from_d(&v[31]), it: Subj::from_d(&v[32]), fields: Subj::from_d(&v[33]) }
    }
}
impl Default for NamesL {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct NamesA { #[cbor(skip)] pub fields: u8, pub it: u8, pub value: u8, #[cbor(skip)] pub v: u8, pub key: u8, pub map: u8, #[cbor(skip)] pub items: u8, pub inner: u8, pub array: u8, #[cbor(skip)] pub tag: u8, pub result: u8, pub index: u8, #[cbor(skip)] pub decoded: u8, pub item: u8, pub x: u8, #[cbor(skip)] pub a: u8, pub f: u8, pub field: u8, #[cbor(skip)] pub other: u8, pub name: u8, pub values: u8, #[cbor(skip)] pub iter: u8, pub __cbor: u8, pub __a0: u8, #[cbor(skip)] pub __a1: u8, pub vec: u8, pub none: u8, #[cbor(skip)] pub default: u8, pub try_default: u8, pub into_cbor_value: u8, #[cbor(skip)] pub std: u8, pub core: u8, pub oasis_cbor: u8, #[cbor(skip)] pub u8: u8 }
impl Subj for NamesA {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("fields"), <u8 as Subj>::ty()).skipped(), fld(t("it"), <u8 as Subj>::ty()), fld(t("value"), <u8 as Subj>::ty()), fld(t("v"), <u8 as Subj>::ty()).skipped(), fld(t("key"), <u8 as Subj>::ty()), fld(t("map"), <u8 as Subj>::ty()), fld(t("items"), <u8 as Subj>::ty()).skipped(), fld(t("inner"), <u8 as Subj>::ty()), fld(t("array"), <u8 as Subj>::ty()), fld(t("tag"), <u8 as Subj>::ty()).skipped(), fld(t("result"), <u8 as Subj>::ty()), fld(t("index"), <u8 as Subj>::ty()), fld(t("decoded"), <u8 as Subj>::ty()).skipped(), fld(t("item"), <u8 as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).skipped(), fld(t("f"), <u8 as Subj>::ty()), fld(t("field"), <u8 as Subj>::ty()), fld(t("other"), <u8 as Subj>::ty()).skipped(), fld(t("name"), <u8 as Subj>::ty()), fld(t("values"), <u8 as Subj>::ty()), fld(t("iter"), <u8 as Subj>::ty()).skipped(), fld(t("__cbor"), <u8 as Subj>::ty()), fld(t("__a0"), <u8 as Subj>::ty()), fld(t("__a1"), <u8 as Subj>::ty()).skipped(), fld(t("vec"), <u8 as Subj>::ty()), fld(t("none"), <u8 as Subj>::ty()), fld(t("default"), <u8 as Subj>::ty()).skipped(), fld(t("try_default"), <u8 as Subj>::ty()), fld(t("into_cbor_value"), <u8 as Subj>::ty()), fld(t("std"), <u8 as Subj>::ty()).skipped(), fld(t("core"), <u8 as Subj>::ty()), fld(t("oasis_cbor"), <u8 as Subj>::ty()), fld(t("u8"), <u8 as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NamesA".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NamesA { fields: x0, it: x1, value: x2, v: x3, key: x4, map: x5, items: x6, inner: x7, array: x8, tag: x9, result: x10, index: x11, decoded: x12, item: x13, x: x14, a: x15, f: x16, field: x17, other: x18, name: x19, values: x20, iter: x21, __cbor: x22, __a0: x23, __a1: x24, vec: x25, none: x26, default: x27, try_default: x28, into_cbor_value: x29, std: x30, core: x31, oasis_cbor: x32, u8: x33 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d(), x32.to_d(), x33.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NamesA { fields: Subj::from_d(&v[0]), it: Subj::from_d(&v[1]), value: Subj::from_d(&v[2]), v: Subj::from_d(&v[3]), key: Subj::from_d(&v[4]), map: Subj::from_d(&v[5]), items: Subj::from_d(&v[6]), inner: Subj::from_d(&v[7]), array: Subj::from_d(&v[8]), tag: Subj::from_d(&v[9]), result: Subj::from_d(&v[10]), index: Subj::from_d(&v[11]), decoded: Subj::from_d(&v[12]), item: Subj::from_d(&v[13]), x: Subj::from_d(&v[14]), a: Subj::from_d(&v[15]), f: Subj::from_d(&v[16]), field: Subj::from_d(&v[17]), other: Subj::from_d(&v[18]), name: Subj::from_d(&v[19]), values: Subj::from_d(&v[20]), iter: Subj::from_d(&v[21]), __cbor: Subj::from_d(&v[22]), __a0: Subj::from_d(&v[23]), __a1: Subj::from_d(&v[24]), vec: Subj::from_d(&v[25]), none: Subj::from_d(&v[26]), default: Subj::from_d(&v[27]), try_default: Subj::from_d(&v[28]), into_cbor_value: Subj::from_d(&v[29]), std: Subj::from_d(&v[30]), core: Subj::from_d(&v[31]), oasis_cbor: Subj::from_d(&v[32]), u8: Subj::from_d(&v[33]) }
    }
}
impl Default for NamesA {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct NamesW { #[cbor(serialize_with = "ser_clamp", optional)] pub fields: u8, #[cbor(deserialize_with = "de_inc")] pub it: u8, #[cbor(serialize_with = "ser_clamp")] pub value: u8, #[cbor(deserialize_with = "de_inc", optional)] pub v: u8, #[cbor(serialize_with = "ser_clamp")] pub key: u8, #[cbor(deserialize_with = "de_inc")] pub map: u8, #[cbor(serialize_with = "ser_clamp", optional)] pub items: u8, #[cbor(deserialize_with = "de_inc")] pub inner: u8, #[cbor(serialize_with = "ser_clamp")] pub array: u8, #[cbor(deserialize_with = "de_inc", optional)] pub tag: u8, #[cbor(serialize_with = "ser_clamp")] pub result: u8, #[cbor(deserialize_with = "de_inc")] pub index: u8, #[cbor(serialize_with = "ser_clamp", optional)] pub decoded: u8, #[cbor(deserialize_with = "de_inc")] pub item: u8, #[cbor(serialize_with = "ser_clamp")] pub x: u8, #[cbor(deserialize_with = "de_inc", optional)] pub a: u8, #[cbor(serialize_with = "ser_clamp")] pub f: u8, #[cbor(deserialize_with = "de_inc")] pub field: u8, #[cbor(serialize_with = "ser_clamp", optional)] pub other: u8, #[cbor(deserialize_with = "de_inc")] pub name: u8, #[cbor(serialize_with = "ser_clamp")] pub values: u8, #[cbor(deserialize_with = "de_inc", optional)] pub iter: u8, #[cbor(serialize_with = "ser_clamp")] pub __cbor: u8, #[cbor(deserialize_with = "de_inc")] pub __a0: u8, #[cbor(serialize_with = "ser_clamp", optional)] pub __a1: u8, #[cbor(deserialize_with = "de_inc")] pub vec: u8, #[cbor(serialize_with = "ser_clamp")] pub none: u8, #[cbor(deserialize_with = "de_inc", optional)] pub default: u8, #[cbor(serialize_with = "ser_clamp")] pub try_default: u8, #[cbor(deserialize_with = "de_inc")] pub into_cbor_value: u8, #[cbor(serialize_with = "ser_clamp", optional)] pub std: u8, #[cbor(deserialize_with = "de_inc")] pub core: u8, #[cbor(serialize_with = "ser_clamp")] pub oasis_cbor: u8, #[cbor(deserialize_with = "de_inc", optional)] pub u8: u8 }
impl Subj for NamesW {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("fields"), <u8 as Subj>::ty()).opt().coded(clamp()), fld(t("it"), <u8 as Subj>::ty()).coded(inc()), fld(t("value"), <u8 as Subj>::ty()).coded(clamp()), fld(t("v"), <u8 as Subj>::ty()).opt().coded(inc()), fld(t("key"), <u8 as Subj>::ty()).coded(clamp()), fld(t("map"), <u8 as Subj>::ty()).coded(inc()), fld(t("items"), <u8 as Subj>::ty()).opt().coded(clamp()), fld(t("inner"), <u8 as Subj>::ty()).coded(inc()), fld(t("array"), <u8 as Subj>::ty()).coded(clamp()), fld(t("tag"), <u8 as Subj>::ty()).opt().coded(inc()), fld(t("result"), <u8 as Subj>::ty()).coded(clamp()), fld(t("index"), <u8 as Subj>::ty()).coded(inc()), fld(t("decoded"), <u8 as Subj>::ty()).opt().coded(clamp()), fld(t("item"), <u8 as Subj>::ty()).coded(inc()), fld(t("x"), <u8 as Subj>::ty()).coded(clamp()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(inc()), fld(t("f"), <u8 as Subj>::ty()).coded(clamp()), fld(t("field"), <u8 as Subj>::ty()).coded(inc()), fld(t("other"), <u8 as Subj>::ty()).opt().coded(clamp()), fld(t("name"), <u8 as Subj>::ty()).coded(inc()), fld(t("values"), <u8 as Subj>::ty()).coded(clamp()), fld(t("iter"), <u8 as Subj>::ty()).opt().coded(inc()), fld(t("__cbor"), <u8 as Subj>::ty()).coded(clamp()), fld(t("__a0"), <u8 as Subj>::ty()).coded(inc()), fld(t("__a1"), <u8 as Subj>::ty()).opt().coded(clamp()), fld(t("vec"), <u8 as Subj>::ty()).coded(inc()), fld(t("none"), <u8 as Subj>::ty()).coded(clamp()), fld(t("default"), <u8 as Subj>::ty()).opt().coded(inc()), fld(t("try_default"), <u8 as Subj>::ty()).coded(clamp()), fld(t("into_cbor_value"), <u8 as Subj>::ty()).coded(inc()), fld(t("std"), <u8 as Subj>::ty()).opt().coded(clamp()), fld(t("core"), <u8 as Subj>::ty()).coded(inc()), fld(t("oasis_cbor"), <u8 as Subj>::ty()).coded(clamp()), fld(t("u8"), <u8 as Subj>::ty()).opt().coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NamesW".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NamesW { fields: x0, it: x1, value: x2, v: x3, key: x4, map: x5, items: x6, inner: x7, array: x8, tag: x9, result: x10, index: x11, decoded: x12, item: x13, x: x14, a: x15, f: x16, field: x17, other: x18, name: x19, values: x20, iter: x21, __cbor: x22, __a0: x23, __a1: x24, vec: x25, none: x26, default: x27, try_default: x28, into_cbor_value: x29, std: x30, core: x31, oasis_cbor: x32, u8: x33 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d(), x32.to_d(), x33.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NamesW { fields: Subj::from_d(&v[0]), it: Subj::from_d(&v[1]), value: Subj::from_d(&v[2]), v: Subj::from_d(&v[3]), key: Subj::from_d(&v[4]), map: Subj::from_d(&v[5]), items: Subj::from_d(&v[6]), inner: Subj::from_d(&v[7]), array: Subj::from_d(&v[8]), tag: Subj::from_d(&v[9]), result: Subj::from_d(&v[10]), index: Subj::from_d(&v[11]), decoded: Subj::from_d(&v[12]), item: Subj::from_d(&v[13]), x: Subj::from_d(&v[14]), a: Subj::from_d(&v[15]), f: Subj::from_d(&v[16]), field: Subj::from_d(&v[17]), other: Subj::from_d(&v[18]), name: Subj::from_d(&v[19]), values: Subj::from_d(&v[20]), iter: Subj::from_d(&v[21]), __cbor: Subj::from_d(&v[22]), __a0: Subj::from_d(&v[23]), __a1: Subj::from_d(&v[24]), vec: Subj::from_d(&v[25]), none: Subj::from_d(&v[26]), default: Subj::from_d(&v[27]), try_default: Subj::from_d(&v[28]), into_cbor_value: Subj::from_d(&v[29]), std: Subj::from_d(&v[30]), core: Subj::from_d(&v[31]), oasis_cbor: Subj::from_d(&v[32]), u8: Subj::from_d(&v[33]) }
    }
}
impl Default for NamesW {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct GenNameT<T> where T: Subj + Encode + Decode + Default { pub a: T, #[cbor(optional)] pub b: Vec<T> }
impl<T> Subj for GenNameT<T> where T: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <T as Subj>::ty()), fld(t("b"), <Vec<T> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "GenNameT".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let GenNameT { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        GenNameT { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl<T> Default for GenNameT<T> where T: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct GenNameV<V> where V: Subj + Encode + Decode + Default { pub a: V, #[cbor(optional)] pub b: Vec<V> }
impl<V> Subj for GenNameV<V> where V: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <V as Subj>::ty()), fld(t("b"), <Vec<V> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "GenNameV".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let GenNameV { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        GenNameV { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl<V> Default for GenNameV<V> where V: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct GenNameE<E> where E: Subj + Encode + Decode + Default { pub a: E, #[cbor(optional)] pub b: Vec<E> }
impl<E> Subj for GenNameE<E> where E: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <E as Subj>::ty()), fld(t("b"), <Vec<E> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "GenNameE".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let GenNameE { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        GenNameE { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl<E> Default for GenNameE<E> where E: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct GenNameI<I> where I: Subj + Encode + Decode + Default { pub a: I, #[cbor(optional)] pub b: Vec<I> }
impl<I> Subj for GenNameI<I> where I: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <I as Subj>::ty()), fld(t("b"), <Vec<I> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "GenNameI".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let GenNameI { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        GenNameI { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl<I> Default for GenNameI<I> where I: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct GenNameValue1<Value1> where Value1: Subj + Encode + Decode + Default { pub a: Value1, #[cbor(optional)] pub b: Vec<Value1> }
impl<Value1> Subj for GenNameValue1<Value1> where Value1: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Value1 as Subj>::ty()), fld(t("b"), <Vec<Value1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "GenNameValue1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let GenNameValue1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        GenNameValue1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl<Value1> Default for GenNameValue1<Value1> where Value1: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct GenName__T<__T> where __T: Subj + Encode + Decode + Default { pub a: __T, #[cbor(optional)] pub b: Vec<__T> }
impl<__T> Subj for GenName__T<__T> where __T: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <__T as Subj>::ty()), fld(t("b"), <Vec<__T> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "GenName__T".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let GenName__T { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        GenName__T { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl<__T> Default for GenName__T<__T> where __T: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct E0 {  }
impl Subj for E0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "E0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let E0 {  } = self;
        D::Seq(vec![])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        E0 {  }
    }
}
impl Default for E0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct E0L {  }
impl Subj for E0L {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "E0L".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let E0L {  } = self;
        D::Seq(vec![])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        E0L {  }
    }
}
impl Default for E0L {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct E0A {  }
impl Subj for E0A {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "E0A".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let E0A {  } = self;
        D::Seq(vec![])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        E0A {  }
    }
}
impl Default for E0A {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T0();
impl Subj for T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T0() = self;
        D::Seq(vec![])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T0()
    }
}
impl Default for T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct U0;
impl Subj for U0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "U0".into(), shape: Shape::Unit, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let U0 = self;
        D::Seq(vec![])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        U0
    }
}
impl Default for U0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct U0N;
impl Subj for U0N {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "U0N".into(), shape: Shape::Unit, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let U0N = self;
        D::Seq(vec![])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        U0N
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct E0N {  }
impl Subj for E0N {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "E0N".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let E0N {  } = self;
        D::Seq(vec![])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        E0N {  }
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W0(pub u8);
impl Subj for W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W0".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W0(Subj::from_d(&v[0]))
    }
}
impl Default for W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN0(pub u8);
impl Subj for WN0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN0".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN0(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW0 { #[cbor(optional)] pub a: W0, pub b: W0, pub c: WN0 }
impl Subj for SW0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W0 as Subj>::ty()).opt(), fld(t("b"), <W0 as Subj>::ty()), fld(t("c"), <WN0 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW0 { pub a: W0, pub c: WN0 }
impl Subj for AW0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W0 as Subj>::ty()), fld(t("c"), <WN0 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW0 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW0 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W1(pub String);
impl Subj for W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W1".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W1(Subj::from_d(&v[0]))
    }
}
impl Default for W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN1(pub String);
impl Subj for WN1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <String as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN1".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN1(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW1 { #[cbor(optional)] pub a: W1, pub b: W1, pub c: WN1 }
impl Subj for SW1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W1 as Subj>::ty()).opt(), fld(t("b"), <W1 as Subj>::ty()), fld(t("c"), <WN1 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW1 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW1 { pub a: W1, pub c: WN1 }
impl Subj for AW1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W1 as Subj>::ty()), fld(t("c"), <WN1 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW1 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW1 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W2(pub Option<u16>);
impl Subj for W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W2".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W2(Subj::from_d(&v[0]))
    }
}
impl Default for W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN2(pub Option<u16>);
impl Subj for WN2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u16> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN2".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN2(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW2 { #[cbor(optional)] pub a: W2, pub b: W2, pub c: WN2 }
impl Subj for SW2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W2 as Subj>::ty()).opt(), fld(t("b"), <W2 as Subj>::ty()), fld(t("c"), <WN2 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW2 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW2 { pub a: W2, pub c: WN2 }
impl Subj for AW2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W2 as Subj>::ty()), fld(t("c"), <WN2 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW2 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW2 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W3(pub Vec<u8>);
impl Subj for W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W3".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W3(Subj::from_d(&v[0]))
    }
}
impl Default for W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN3(pub Vec<u8>);
impl Subj for WN3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<u8> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN3".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN3(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW3 { #[cbor(optional)] pub a: W3, pub b: W3, pub c: WN3 }
impl Subj for SW3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W3 as Subj>::ty()).opt(), fld(t("b"), <W3 as Subj>::ty()), fld(t("c"), <WN3 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW3 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW3 { pub a: W3, pub c: WN3 }
impl Subj for AW3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W3 as Subj>::ty()), fld(t("c"), <WN3 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW3 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW3 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W4(pub Value);
impl Subj for W4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W4".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W4(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W4(Subj::from_d(&v[0]))
    }
}
impl Default for W4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN4(pub Value);
impl Subj for WN4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Value as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN4".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN4(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN4(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW4 { #[cbor(optional)] pub a: W4, pub b: W4, pub c: WN4 }
impl Subj for SW4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W4 as Subj>::ty()).opt(), fld(t("b"), <W4 as Subj>::ty()), fld(t("c"), <WN4 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW4 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW4 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW4 { pub a: W4, pub c: WN4 }
impl Subj for AW4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W4 as Subj>::ty()), fld(t("c"), <WN4 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW4".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW4 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW4 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W5(pub NS);
impl Subj for W5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W5".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W5(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W5(Subj::from_d(&v[0]))
    }
}
impl Default for W5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN5(pub NS);
impl Subj for WN5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN5".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN5(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN5(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW5 { #[cbor(optional)] pub a: W5, pub b: W5, pub c: WN5 }
impl Subj for SW5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W5 as Subj>::ty()).opt(), fld(t("b"), <W5 as Subj>::ty()), fld(t("c"), <WN5 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW5".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW5 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW5 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW5 { pub a: W5, pub c: WN5 }
impl Subj for AW5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W5 as Subj>::ty()), fld(t("c"), <WN5 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW5".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW5 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW5 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W6(pub EN);
impl Subj for W6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W6".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W6(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W6(Subj::from_d(&v[0]))
    }
}
impl Default for W6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN6(pub EN);
impl Subj for WN6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <EN as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN6".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN6(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN6(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW6 { #[cbor(optional)] pub a: W6, pub b: W6, pub c: WN6 }
impl Subj for SW6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W6 as Subj>::ty()).opt(), fld(t("b"), <W6 as Subj>::ty()), fld(t("c"), <WN6 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW6".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW6 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW6 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW6 { pub a: W6, pub c: WN6 }
impl Subj for AW6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W6 as Subj>::ty()), fld(t("c"), <WN6 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW6".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW6 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW6 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W7(pub ());
impl Subj for W7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <() as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W7".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W7(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W7(Subj::from_d(&v[0]))
    }
}
impl Default for W7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN7(pub ());
impl Subj for WN7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <() as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN7".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN7(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN7(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW7 { #[cbor(optional)] pub a: W7, pub b: W7, pub c: WN7 }
impl Subj for SW7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W7 as Subj>::ty()).opt(), fld(t("b"), <W7 as Subj>::ty()), fld(t("c"), <WN7 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW7".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW7 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW7 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW7 { pub a: W7, pub c: WN7 }
impl Subj for AW7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W7 as Subj>::ty()), fld(t("c"), <WN7 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW7".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW7 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW7 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W8(pub [u16; 2]);
impl Subj for W8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[u16; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W8".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W8(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W8(Subj::from_d(&v[0]))
    }
}
impl Default for W8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN8(pub [u16; 2]);
impl Subj for WN8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[u16; 2] as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN8".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN8(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN8(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW8 { #[cbor(optional)] pub a: W8, pub b: W8, pub c: WN8 }
impl Subj for SW8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W8 as Subj>::ty()).opt(), fld(t("b"), <W8 as Subj>::ty()), fld(t("c"), <WN8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW8 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW8 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW8 { pub a: W8, pub c: WN8 }
impl Subj for AW8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W8 as Subj>::ty()), fld(t("c"), <WN8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW8".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW8 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW8 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W9(pub S_ONum);
impl Subj for W9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <S_ONum as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W9".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W9(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W9(Subj::from_d(&v[0]))
    }
}
impl Default for W9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN9(pub S_ONum);
impl Subj for WN9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <S_ONum as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN9".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN9(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN9(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW9 { #[cbor(optional)] pub a: W9, pub b: W9, pub c: WN9 }
impl Subj for SW9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W9 as Subj>::ty()).opt(), fld(t("b"), <W9 as Subj>::ty()), fld(t("c"), <WN9 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW9".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW9 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW9 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW9 { pub a: W9, pub c: WN9 }
impl Subj for AW9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W9 as Subj>::ty()), fld(t("c"), <WN9 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW9".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW9 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW9 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W10(pub TW);
impl Subj for W10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <TW as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W10".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W10(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W10(Subj::from_d(&v[0]))
    }
}
impl Default for W10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN10(pub TW);
impl Subj for WN10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <TW as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN10".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN10(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN10(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW10 { #[cbor(optional)] pub a: W10, pub b: W10, pub c: WN10 }
impl Subj for SW10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W10 as Subj>::ty()).opt(), fld(t("b"), <W10 as Subj>::ty()), fld(t("c"), <WN10 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW10".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW10 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW10 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW10 { pub a: W10, pub c: WN10 }
impl Subj for AW10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W10 as Subj>::ty()), fld(t("c"), <WN10 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW10".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW10 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW10 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W11(pub T_u8);
impl Subj for W11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <T_u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W11".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W11(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W11(Subj::from_d(&v[0]))
    }
}
impl Default for W11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN11(pub T_u8);
impl Subj for WN11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <T_u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN11".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN11(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN11(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW11 { #[cbor(optional)] pub a: W11, pub b: W11, pub c: WN11 }
impl Subj for SW11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W11 as Subj>::ty()).opt(), fld(t("b"), <W11 as Subj>::ty()), fld(t("c"), <WN11 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW11".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW11 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW11 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW11 { pub a: W11, pub c: WN11 }
impl Subj for AW11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W11 as Subj>::ty()), fld(t("c"), <WN11 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW11".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW11 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW11 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W12(pub BTreeMap<String, u8>);
impl Subj for W12 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W12".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W12(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W12(Subj::from_d(&v[0]))
    }
}
impl Default for W12 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN12(pub BTreeMap<String, u8>);
impl Subj for WN12 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN12".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN12(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN12(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW12 { #[cbor(optional)] pub a: W12, pub b: W12, pub c: WN12 }
impl Subj for SW12 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W12 as Subj>::ty()).opt(), fld(t("b"), <W12 as Subj>::ty()), fld(t("c"), <WN12 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW12".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW12 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW12 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW12 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW12 { pub a: W12, pub c: WN12 }
impl Subj for AW12 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W12 as Subj>::ty()), fld(t("c"), <WN12 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW12".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW12 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW12 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW12 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W13(pub AR);
impl Subj for W13 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <AR as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W13".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W13(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W13(Subj::from_d(&v[0]))
    }
}
impl Default for W13 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN13(pub AR);
impl Subj for WN13 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <AR as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN13".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN13(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN13(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW13 { #[cbor(optional)] pub a: W13, pub b: W13, pub c: WN13 }
impl Subj for SW13 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W13 as Subj>::ty()).opt(), fld(t("b"), <W13 as Subj>::ty()), fld(t("c"), <WN13 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW13".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW13 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW13 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW13 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW13 { pub a: W13, pub c: WN13 }
impl Subj for AW13 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W13 as Subj>::ty()), fld(t("c"), <WN13 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW13".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW13 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW13 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW13 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W14(pub ED);
impl Subj for W14 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <ED as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W14".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W14(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W14(Subj::from_d(&v[0]))
    }
}
impl Default for W14 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN14(pub ED);
impl Subj for WN14 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <ED as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN14".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN14(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN14(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW14 { #[cbor(optional)] pub a: W14, pub b: W14, pub c: WN14 }
impl Subj for SW14 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W14 as Subj>::ty()).opt(), fld(t("b"), <W14 as Subj>::ty()), fld(t("c"), <WN14 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW14".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW14 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW14 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW14 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW14 { pub a: W14, pub c: WN14 }
impl Subj for AW14 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W14 as Subj>::ty()), fld(t("c"), <WN14 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW14".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW14 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW14 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW14 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W15(pub ND);
impl Subj for W15 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <ND as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W15".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W15(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W15(Subj::from_d(&v[0]))
    }
}
impl Default for W15 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN15(pub ND);
impl Subj for WN15 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <ND as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN15".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN15(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN15(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW15 { #[cbor(optional)] pub a: W15, pub b: W15, pub c: WN15 }
impl Subj for SW15 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W15 as Subj>::ty()).opt(), fld(t("b"), <W15 as Subj>::ty()), fld(t("c"), <WN15 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW15".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW15 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW15 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW15 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW15 { pub a: W15, pub c: WN15 }
impl Subj for AW15 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W15 as Subj>::ty()), fld(t("c"), <WN15 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW15".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW15 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW15 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW15 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W16(pub U0);
impl Subj for W16 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <U0 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W16".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W16(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W16(Subj::from_d(&v[0]))
    }
}
impl Default for W16 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN16(pub U0);
impl Subj for WN16 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <U0 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN16".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN16(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN16(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW16 { #[cbor(optional)] pub a: W16, pub b: W16, pub c: WN16 }
impl Subj for SW16 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W16 as Subj>::ty()).opt(), fld(t("b"), <W16 as Subj>::ty()), fld(t("c"), <WN16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW16".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW16 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW16 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW16 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW16 { pub a: W16, pub c: WN16 }
impl Subj for AW16 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W16 as Subj>::ty()), fld(t("c"), <WN16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW16".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW16 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW16 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW16 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W17(pub Vec<String>);
impl Subj for W17 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<String> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W17".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W17(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W17(Subj::from_d(&v[0]))
    }
}
impl Default for W17 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN17(pub Vec<String>);
impl Subj for WN17 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<String> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN17".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN17(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN17(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW17 { #[cbor(optional)] pub a: W17, pub b: W17, pub c: WN17 }
impl Subj for SW17 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W17 as Subj>::ty()).opt(), fld(t("b"), <W17 as Subj>::ty()), fld(t("c"), <WN17 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW17".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW17 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW17 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW17 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW17 { pub a: W17, pub c: WN17 }
impl Subj for AW17 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W17 as Subj>::ty()), fld(t("c"), <WN17 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW17".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW17 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW17 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW17 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W18(pub (u8, bool));
impl Subj for W18 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(u8, bool) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W18".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W18(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W18(Subj::from_d(&v[0]))
    }
}
impl Default for W18 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN18(pub (u8, bool));
impl Subj for WN18 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(u8, bool) as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN18".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN18(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN18(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW18 { #[cbor(optional)] pub a: W18, pub b: W18, pub c: WN18 }
impl Subj for SW18 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W18 as Subj>::ty()).opt(), fld(t("b"), <W18 as Subj>::ty()), fld(t("c"), <WN18 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW18".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW18 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW18 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW18 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW18 { pub a: W18, pub c: WN18 }
impl Subj for AW18 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W18 as Subj>::ty()), fld(t("c"), <WN18 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW18".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW18 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW18 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW18 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W19(pub HashSet<u8>);
impl Subj for W19 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <HashSet<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W19".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W19(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W19(Subj::from_d(&v[0]))
    }
}
impl Default for W19 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN19(pub HashSet<u8>);
impl Subj for WN19 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <HashSet<u8> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN19".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN19(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN19(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW19 { #[cbor(optional)] pub a: W19, pub b: W19, pub c: WN19 }
impl Subj for SW19 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W19 as Subj>::ty()).opt(), fld(t("b"), <W19 as Subj>::ty()), fld(t("c"), <WN19 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW19".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW19 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW19 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW19 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW19 { pub a: W19, pub c: WN19 }
impl Subj for AW19 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W19 as Subj>::ty()), fld(t("c"), <WN19 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW19".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW19 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW19 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW19 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W20(pub u128);
impl Subj for W20 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u128 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W20".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W20(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W20(Subj::from_d(&v[0]))
    }
}
impl Default for W20 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN20(pub u128);
impl Subj for WN20 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u128 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN20".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN20(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN20(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW20 { #[cbor(optional)] pub a: W20, pub b: W20, pub c: WN20 }
impl Subj for SW20 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W20 as Subj>::ty()).opt(), fld(t("b"), <W20 as Subj>::ty()), fld(t("c"), <WN20 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW20".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW20 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW20 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW20 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW20 { pub a: W20, pub c: WN20 }
impl Subj for AW20 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W20 as Subj>::ty()), fld(t("c"), <WN20 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW20".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW20 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW20 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW20 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct W21(pub char);
impl Subj for W21 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <char as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "W21".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let W21(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        W21(Subj::from_d(&v[0]))
    }
}
impl Default for W21 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN21(pub char);
impl Subj for WN21 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <char as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN21".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN21(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN21(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW21 { #[cbor(optional)] pub a: W21, pub b: W21, pub c: WN21 }
impl Subj for SW21 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W21 as Subj>::ty()).opt(), fld(t("b"), <W21 as Subj>::ty()), fld(t("c"), <WN21 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW21".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW21 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW21 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl Default for SW21 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW21 { pub a: W21, pub c: WN21 }
impl Subj for AW21 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <W21 as Subj>::ty()), fld(t("c"), <WN21 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW21".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW21 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW21 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW21 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WC0(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16);
impl Subj for WC0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WC0".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WC0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WC0(Subj::from_d(&v[0]))
    }
}
impl Default for WC0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WCN0(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16);
impl Subj for WCN0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).coded(num())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WCN0".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WCN0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WCN0(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct NC0(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub u16);
impl Subj for NC0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NC0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NC0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NC0(Subj::from_d(&v[0]))
    }
}
impl Default for NC0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct SWC0 { #[cbor(optional)] pub a: WC0, pub b: WC0, pub c: WCN0, pub d: Option<WC0> }
impl Subj for SWC0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WC0 as Subj>::ty()).opt(), fld(t("b"), <WC0 as Subj>::ty()), fld(t("c"), <WCN0 as Subj>::ty()), fld(t("d"), <Option<WC0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SWC0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SWC0 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SWC0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SWC0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AWC0 { pub a: WC0, pub c: WCN0, pub v: Vec<WC0> }
impl Subj for AWC0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WC0 as Subj>::ty()), fld(t("c"), <WCN0 as Subj>::ty()), fld(t("v"), <Vec<WC0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AWC0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AWC0 { a: x0, c: x1, v: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AWC0 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), v: Subj::from_d(&v[2]) }
    }
}
impl Default for AWC0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WWC0(pub WC0);
impl Subj for WWC0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <WC0 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WWC0".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WWC0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WWC0(Subj::from_d(&v[0]))
    }
}
impl Default for WWC0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WC1(#[cbor(serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16);
impl Subj for WC1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WC1".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WC1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WC1(Subj::from_d(&v[0]))
    }
}
impl Default for WC1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WCN1(#[cbor(serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16);
impl Subj for WCN1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).coded(pos())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WCN1".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WCN1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WCN1(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct NC1(#[cbor(serialize_with = "ser_pos", deserialize_with = "de_pos")] pub u16);
impl Subj for NC1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()).coded(pos())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NC1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NC1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NC1(Subj::from_d(&v[0]))
    }
}
impl Default for NC1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct SWC1 { #[cbor(optional)] pub a: WC1, pub b: WC1, pub c: WCN1, pub d: Option<WC1> }
impl Subj for SWC1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WC1 as Subj>::ty()).opt(), fld(t("b"), <WC1 as Subj>::ty()), fld(t("c"), <WCN1 as Subj>::ty()), fld(t("d"), <Option<WC1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SWC1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SWC1 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SWC1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SWC1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AWC1 { pub a: WC1, pub c: WCN1, pub v: Vec<WC1> }
impl Subj for AWC1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WC1 as Subj>::ty()), fld(t("c"), <WCN1 as Subj>::ty()), fld(t("v"), <Vec<WC1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AWC1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AWC1 { a: x0, c: x1, v: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AWC1 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), v: Subj::from_d(&v[2]) }
    }
}
impl Default for AWC1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WWC1(pub WC1);
impl Subj for WWC1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <WC1 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WWC1".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WWC1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WWC1(Subj::from_d(&v[0]))
    }
}
impl Default for WWC1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WC2(#[cbor(serialize_with = "ser_clamp")] pub u8);
impl Subj for WC2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WC2".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WC2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WC2(Subj::from_d(&v[0]))
    }
}
impl Default for WC2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WCN2(#[cbor(serialize_with = "ser_clamp")] pub u8);
impl Subj for WCN2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WCN2".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WCN2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WCN2(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct NC2(#[cbor(serialize_with = "ser_clamp")] pub u8);
impl Subj for NC2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(clamp())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NC2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NC2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NC2(Subj::from_d(&v[0]))
    }
}
impl Default for NC2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct SWC2 { #[cbor(optional)] pub a: WC2, pub b: WC2, pub c: WCN2, pub d: Option<WC2> }
impl Subj for SWC2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WC2 as Subj>::ty()).opt(), fld(t("b"), <WC2 as Subj>::ty()), fld(t("c"), <WCN2 as Subj>::ty()), fld(t("d"), <Option<WC2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SWC2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SWC2 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SWC2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SWC2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AWC2 { pub a: WC2, pub c: WCN2, pub v: Vec<WC2> }
impl Subj for AWC2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WC2 as Subj>::ty()), fld(t("c"), <WCN2 as Subj>::ty()), fld(t("v"), <Vec<WC2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AWC2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AWC2 { a: x0, c: x1, v: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AWC2 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), v: Subj::from_d(&v[2]) }
    }
}
impl Default for AWC2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WWC2(pub WC2);
impl Subj for WWC2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <WC2 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WWC2".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WWC2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WWC2(Subj::from_d(&v[0]))
    }
}
impl Default for WWC2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WC3(#[cbor(deserialize_with = "de_inc")] pub u8);
impl Subj for WC3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WC3".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WC3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WC3(Subj::from_d(&v[0]))
    }
}
impl Default for WC3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WCN3(#[cbor(deserialize_with = "de_inc")] pub u8);
impl Subj for WCN3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(inc())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WCN3".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WCN3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WCN3(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct NC3(#[cbor(deserialize_with = "de_inc")] pub u8);
impl Subj for NC3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(inc())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NC3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NC3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NC3(Subj::from_d(&v[0]))
    }
}
impl Default for NC3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct SWC3 { #[cbor(optional)] pub a: WC3, pub b: WC3, pub c: WCN3, pub d: Option<WC3> }
impl Subj for SWC3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WC3 as Subj>::ty()).opt(), fld(t("b"), <WC3 as Subj>::ty()), fld(t("c"), <WCN3 as Subj>::ty()), fld(t("d"), <Option<WC3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SWC3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SWC3 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SWC3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SWC3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AWC3 { pub a: WC3, pub c: WCN3, pub v: Vec<WC3> }
impl Subj for AWC3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WC3 as Subj>::ty()), fld(t("c"), <WCN3 as Subj>::ty()), fld(t("v"), <Vec<WC3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AWC3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AWC3 { a: x0, c: x1, v: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AWC3 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), v: Subj::from_d(&v[2]) }
    }
}
impl Default for AWC3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WWC3(pub WC3);
impl Subj for WWC3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <WC3 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WWC3".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WWC3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WWC3(Subj::from_d(&v[0]))
    }
}
impl Default for WWC3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WC4(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] pub Vec<u8>);
impl Subj for WC4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WC4".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WC4(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WC4(Subj::from_d(&v[0]))
    }
}
impl Default for WC4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WCN4(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] pub Vec<u8>);
impl Subj for WCN4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WCN4".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WCN4(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WCN4(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct NC4(#[cbor(serialize_with = "ser_wrap", deserialize_with = "de_wrap")] pub Vec<u8>);
impl Subj for NC4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<u8> as Subj>::ty()).coded(wrap())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NC4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NC4(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NC4(Subj::from_d(&v[0]))
    }
}
impl Default for NC4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct SWC4 { #[cbor(optional)] pub a: WC4, pub b: WC4, pub c: WCN4, pub d: Option<WC4> }
impl Subj for SWC4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WC4 as Subj>::ty()).opt(), fld(t("b"), <WC4 as Subj>::ty()), fld(t("c"), <WCN4 as Subj>::ty()), fld(t("d"), <Option<WC4> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SWC4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SWC4 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SWC4 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SWC4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AWC4 { pub a: WC4, pub c: WCN4, pub v: Vec<WC4> }
impl Subj for AWC4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WC4 as Subj>::ty()), fld(t("c"), <WCN4 as Subj>::ty()), fld(t("v"), <Vec<WC4> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AWC4".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AWC4 { a: x0, c: x1, v: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AWC4 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), v: Subj::from_d(&v[2]) }
    }
}
impl Default for AWC4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WWC4(pub WC4);
impl Subj for WWC4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <WC4 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WWC4".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WWC4(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WWC4(Subj::from_d(&v[0]))
    }
}
impl Default for WWC4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WC5(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] pub u8);
impl Subj for WC5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(under())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WC5".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WC5(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WC5(Subj::from_d(&v[0]))
    }
}
impl Default for WC5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WCN5(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] pub u8);
impl Subj for WCN5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(under())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WCN5".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WCN5(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WCN5(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct NC5(#[cbor(serialize_with = "ser_under", deserialize_with = "de_under")] pub u8);
impl Subj for NC5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(under())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "NC5".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NC5(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NC5(Subj::from_d(&v[0]))
    }
}
impl Default for NC5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct SWC5 { #[cbor(optional)] pub a: WC5, pub b: WC5, pub c: WCN5, pub d: Option<WC5> }
impl Subj for SWC5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WC5 as Subj>::ty()).opt(), fld(t("b"), <WC5 as Subj>::ty()), fld(t("c"), <WCN5 as Subj>::ty()), fld(t("d"), <Option<WC5> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SWC5".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SWC5 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SWC5 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SWC5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AWC5 { pub a: WC5, pub c: WCN5, pub v: Vec<WC5> }
impl Subj for AWC5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WC5 as Subj>::ty()), fld(t("c"), <WCN5 as Subj>::ty()), fld(t("v"), <Vec<WC5> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AWC5".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AWC5 { a: x0, c: x1, v: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AWC5 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]), v: Subj::from_d(&v[2]) }
    }
}
impl Default for AWC5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WWC5(pub WC5);
impl Subj for WWC5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <WC5 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WWC5".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WWC5(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WWC5(Subj::from_d(&v[0]))
    }
}
impl Default for WWC5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct N1_0 { pub a: u8 }
impl Subj for N1_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N1_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let N1_0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N1_0 { a: Subj::from_d(&v[0]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct NT_0(pub u8, pub u8);
impl Subj for NT_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NT_0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NT_0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NT_0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, as_array)]
pub struct NA_0 { pub a: u8 }
impl Subj for NA_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NA_0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NA_0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NA_0 { a: Subj::from_d(&v[0]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct NO_0 { pub b: N1_0, #[cbor(optional)] pub a: NT_0, pub c: Option<NA_0> }
impl Subj for NO_0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <N1_0 as Subj>::ty()), fld(t("a"), <NT_0 as Subj>::ty()).opt(), fld(t("c"), <Option<NA_0> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NO_0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let NO_0 { b: x0, a: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NO_0 { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct N1_1 { pub a: Option<String> }
impl Subj for N1_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<String> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N1_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let N1_1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N1_1 { a: Subj::from_d(&v[0]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct NT_1(pub Option<String>, pub u8);
impl Subj for NT_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<String> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NT_1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NT_1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NT_1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, as_array)]
pub struct NA_1 { pub a: Option<String> }
impl Subj for NA_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<String> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NA_1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NA_1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NA_1 { a: Subj::from_d(&v[0]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct NO_1 { pub b: N1_1, #[cbor(optional)] pub a: NT_1, pub c: Option<NA_1> }
impl Subj for NO_1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <N1_1 as Subj>::ty()), fld(t("a"), <NT_1 as Subj>::ty()).opt(), fld(t("c"), <Option<NA_1> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NO_1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let NO_1 { b: x0, a: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NO_1 { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct N1_2 { pub a: NS }
impl Subj for N1_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <NS as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N1_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let N1_2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N1_2 { a: Subj::from_d(&v[0]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct NT_2(pub NS, pub u8);
impl Subj for NT_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <NS as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NT_2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NT_2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NT_2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, as_array)]
pub struct NA_2 { pub a: NS }
impl Subj for NA_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <NS as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NA_2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NA_2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NA_2 { a: Subj::from_d(&v[0]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct NO_2 { pub b: N1_2, #[cbor(optional)] pub a: NT_2, pub c: Option<NA_2> }
impl Subj for NO_2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <N1_2 as Subj>::ty()), fld(t("a"), <NT_2 as Subj>::ty()).opt(), fld(t("c"), <Option<NA_2> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NO_2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let NO_2 { b: x0, a: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NO_2 { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct N1_3 { pub a: EN }
impl Subj for N1_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <EN as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N1_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let N1_3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N1_3 { a: Subj::from_d(&v[0]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct NT_3(pub EN, pub u8);
impl Subj for NT_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <EN as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NT_3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NT_3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NT_3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, as_array)]
pub struct NA_3 { pub a: EN }
impl Subj for NA_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <EN as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NA_3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NA_3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NA_3 { a: Subj::from_d(&v[0]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct NO_3 { pub b: N1_3, #[cbor(optional)] pub a: NT_3, pub c: Option<NA_3> }
impl Subj for NO_3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <N1_3 as Subj>::ty()), fld(t("a"), <NT_3 as Subj>::ty()).opt(), fld(t("c"), <Option<NA_3> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NO_3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let NO_3 { b: x0, a: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NO_3 { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct N1_4 { pub a: ND }
impl Subj for N1_4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ND as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N1_4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let N1_4 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N1_4 { a: Subj::from_d(&v[0]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct NT_4(pub ND, pub u8);
impl Subj for NT_4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <ND as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NT_4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NT_4(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NT_4(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, as_array)]
pub struct NA_4 { pub a: ND }
impl Subj for NA_4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <ND as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NA_4".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let NA_4 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NA_4 { a: Subj::from_d(&v[0]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct NO_4 { pub b: N1_4, #[cbor(optional)] pub a: NT_4, pub c: Option<NA_4> }
impl Subj for NO_4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <N1_4 as Subj>::ty()), fld(t("a"), <NT_4 as Subj>::ty()).opt(), fld(t("c"), <Option<NA_4> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "NO_4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let NO_4 { b: x0, a: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        NO_4 { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
pub struct CD { pub a: u8, pub b: String }
impl Subj for CD {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()), fld(t("b"), <String as Subj>::ty())];
        let default = Some(D::Seq(vec![D::Int(42), D::Str("dflt".into())]));
        Ty::Struct(Arc::new(StructTy { name: "CD".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let CD { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        CD { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for CD {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct CDW { pub x: CD, #[cbor(skip)] pub y: CD, pub z: Option<CD> }
impl Subj for CDW {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("x"), <CD as Subj>::ty()), fld(t("y"), <CD as Subj>::ty()).skipped(), fld(t("z"), <Option<CD> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "CDW".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let CDW { x: x0, y: x1, z: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        CDW { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), z: Subj::from_d(&v[2]) }
    }
}
impl Default for CDW {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct CDT(pub CD, pub u8);
impl Subj for CDT {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <CD as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = Some(D::Seq(vec![D::Seq(vec![D::Int(1), D::Str(String::new())]), D::Int(9)]));
        Ty::Struct(Arc::new(StructTy { name: "CDT".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let CDT(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        CDT(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for CDT {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P0 { pub f: u8 }
impl Subj for P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P0 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P0 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O0 { #[cbor(optional)] pub f: u8 }
impl Subj for O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <u8 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O0 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O0 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A0(pub u8, pub u8);
impl Subj for A0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP0 { #[cbor(optional)] pub inner: O0, pub other: P0 }
impl Subj for PP0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O0 as Subj>::ty()).opt(), fld(t("other"), <P0 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP0 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP0 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P1 { pub f: u16 }
impl Subj for P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <u16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P1 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P1 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O1 { #[cbor(optional)] pub f: u16 }
impl Subj for O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <u16 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O1 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O1 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A1(pub u16, pub u16);
impl Subj for A1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()), fld(NULL, <u16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP1 { #[cbor(optional)] pub inner: O1, pub other: P1 }
impl Subj for PP1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O1 as Subj>::ty()).opt(), fld(t("other"), <P1 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP1 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP1 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P2 { pub f: u32 }
impl Subj for P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <u32 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P2 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P2 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O2 { #[cbor(optional)] pub f: u32 }
impl Subj for O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <u32 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O2 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O2 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A2(pub u32, pub u32);
impl Subj for A2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u32 as Subj>::ty()), fld(NULL, <u32 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP2 { #[cbor(optional)] pub inner: O2, pub other: P2 }
impl Subj for PP2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O2 as Subj>::ty()).opt(), fld(t("other"), <P2 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP2 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP2 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P3 { pub f: u64 }
impl Subj for P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <u64 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P3 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P3 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O3 { #[cbor(optional)] pub f: u64 }
impl Subj for O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <u64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O3 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O3 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A3(pub u64, pub u64);
impl Subj for A3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u64 as Subj>::ty()), fld(NULL, <u64 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP3 { #[cbor(optional)] pub inner: O3, pub other: P3 }
impl Subj for PP3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O3 as Subj>::ty()).opt(), fld(t("other"), <P3 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP3 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP3 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P4 { pub f: i8 }
impl Subj for P4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P4 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P4 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O4 { #[cbor(optional)] pub f: i8 }
impl Subj for O4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <i8 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O4 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O4 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A4(pub i8, pub i8);
impl Subj for A4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <i8 as Subj>::ty()), fld(NULL, <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A4(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A4(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP4 { #[cbor(optional)] pub inner: O4, pub other: P4 }
impl Subj for PP4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O4 as Subj>::ty()).opt(), fld(t("other"), <P4 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP4 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP4 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P5 { pub f: i16 }
impl Subj for P5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P5".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P5 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P5 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O5 { #[cbor(optional)] pub f: i16 }
impl Subj for O5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <i16 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O5".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O5 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O5 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A5(pub i16, pub i16);
impl Subj for A5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <i16 as Subj>::ty()), fld(NULL, <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A5".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A5(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A5(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP5 { #[cbor(optional)] pub inner: O5, pub other: P5 }
impl Subj for PP5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O5 as Subj>::ty()).opt(), fld(t("other"), <P5 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP5".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP5 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP5 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P6 { pub f: i32 }
impl Subj for P6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <i32 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P6".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P6 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P6 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O6 { #[cbor(optional)] pub f: i32 }
impl Subj for O6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <i32 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O6".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O6 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O6 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A6(pub i32, pub i32);
impl Subj for A6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <i32 as Subj>::ty()), fld(NULL, <i32 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A6".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A6(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A6(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP6 { #[cbor(optional)] pub inner: O6, pub other: P6 }
impl Subj for PP6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O6 as Subj>::ty()).opt(), fld(t("other"), <P6 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP6".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP6 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP6 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P7 { pub f: i64 }
impl Subj for P7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <i64 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P7".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P7 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P7 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O7 { #[cbor(optional)] pub f: i64 }
impl Subj for O7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <i64 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O7".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O7 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O7 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A7(pub i64, pub i64);
impl Subj for A7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <i64 as Subj>::ty()), fld(NULL, <i64 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A7".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A7(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A7(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP7 { #[cbor(optional)] pub inner: O7, pub other: P7 }
impl Subj for PP7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O7 as Subj>::ty()).opt(), fld(t("other"), <P7 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP7".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP7 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP7 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P8 { pub f: u128 }
impl Subj for P8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <u128 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P8 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P8 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O8 { #[cbor(optional)] pub f: u128 }
impl Subj for O8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <u128 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O8 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O8 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A8(pub u128, pub u128);
impl Subj for A8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u128 as Subj>::ty()), fld(NULL, <u128 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A8".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A8(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A8(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP8 { #[cbor(optional)] pub inner: O8, pub other: P8 }
impl Subj for PP8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O8 as Subj>::ty()).opt(), fld(t("other"), <P8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP8 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP8 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P9 { pub f: bool }
impl Subj for P9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P9".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P9 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P9 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O9 { #[cbor(optional)] pub f: bool }
impl Subj for O9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <bool as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O9".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O9 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O9 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A9(pub bool, pub bool);
impl Subj for A9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <bool as Subj>::ty()), fld(NULL, <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A9".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A9(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A9(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP9 { #[cbor(optional)] pub inner: O9, pub other: P9 }
impl Subj for PP9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O9 as Subj>::ty()).opt(), fld(t("other"), <P9 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP9".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP9 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP9 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P10 { pub f: char }
impl Subj for P10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <char as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P10".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P10 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P10 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O10 { #[cbor(optional)] pub f: char }
impl Subj for O10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <char as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O10".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O10 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O10 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A10(pub char, pub char);
impl Subj for A10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <char as Subj>::ty()), fld(NULL, <char as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A10".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A10(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A10(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP10 { #[cbor(optional)] pub inner: O10, pub other: P10 }
impl Subj for PP10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O10 as Subj>::ty()).opt(), fld(t("other"), <P10 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP10".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP10 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP10 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P11 { pub f: String }
impl Subj for P11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P11".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P11 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P11 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O11 { #[cbor(optional)] pub f: String }
impl Subj for O11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <String as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O11".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O11 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O11 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A11(pub String, pub String);
impl Subj for A11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <String as Subj>::ty()), fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A11".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A11(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A11(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP11 { #[cbor(optional)] pub inner: O11, pub other: P11 }
impl Subj for PP11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O11 as Subj>::ty()).opt(), fld(t("other"), <P11 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP11".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP11 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP11 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P12 { pub f: () }
impl Subj for P12 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <() as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P12".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P12 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P12 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P12 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O12 { #[cbor(optional)] pub f: () }
impl Subj for O12 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <() as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O12".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O12 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O12 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O12 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A12(pub (), pub ());
impl Subj for A12 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <() as Subj>::ty()), fld(NULL, <() as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A12".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A12(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A12(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A12 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP12 { #[cbor(optional)] pub inner: O12, pub other: P12 }
impl Subj for PP12 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O12 as Subj>::ty()).opt(), fld(t("other"), <P12 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP12".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP12 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP12 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP12 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P13 { pub f: Value }
impl Subj for P13 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P13".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P13 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P13 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P13 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O13 { #[cbor(optional)] pub f: Value }
impl Subj for O13 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Value as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O13".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O13 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O13 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O13 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A13(pub Value, pub Value);
impl Subj for A13 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Value as Subj>::ty()), fld(NULL, <Value as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A13".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A13(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A13(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A13 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP13 { #[cbor(optional)] pub inner: O13, pub other: P13 }
impl Subj for PP13 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O13 as Subj>::ty()).opt(), fld(t("other"), <P13 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP13".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP13 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP13 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP13 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P14 { pub f: Vec<u8> }
impl Subj for P14 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P14".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P14 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P14 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P14 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O14 { #[cbor(optional)] pub f: Vec<u8> }
impl Subj for O14 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O14".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O14 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O14 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O14 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A14(pub Vec<u8>, pub Vec<u8>);
impl Subj for A14 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<u8> as Subj>::ty()), fld(NULL, <Vec<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A14".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A14(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A14(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A14 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP14 { #[cbor(optional)] pub inner: O14, pub other: P14 }
impl Subj for PP14 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O14 as Subj>::ty()).opt(), fld(t("other"), <P14 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP14".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP14 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP14 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP14 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P15 { pub f: Vec<u16> }
impl Subj for P15 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P15".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P15 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P15 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P15 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O15 { #[cbor(optional)] pub f: Vec<u16> }
impl Subj for O15 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<u16> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O15".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O15 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O15 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O15 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A15(pub Vec<u16>, pub Vec<u16>);
impl Subj for A15 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<u16> as Subj>::ty()), fld(NULL, <Vec<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A15".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A15(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A15(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A15 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP15 { #[cbor(optional)] pub inner: O15, pub other: P15 }
impl Subj for PP15 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O15 as Subj>::ty()).opt(), fld(t("other"), <P15 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP15".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP15 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP15 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP15 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P16 { pub f: [u8; 0] }
impl Subj for P16 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <[u8; 0] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P16".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P16 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P16 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P16 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O16 { #[cbor(optional)] pub f: [u8; 0] }
impl Subj for O16 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <[u8; 0] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O16".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O16 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O16 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O16 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A16(pub [u8; 0], pub [u8; 0]);
impl Subj for A16 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[u8; 0] as Subj>::ty()), fld(NULL, <[u8; 0] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A16".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A16(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A16(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A16 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP16 { #[cbor(optional)] pub inner: O16, pub other: P16 }
impl Subj for PP16 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O16 as Subj>::ty()).opt(), fld(t("other"), <P16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP16".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP16 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP16 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP16 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P17 { pub f: [u8; 3] }
impl Subj for P17 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <[u8; 3] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P17".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P17 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P17 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P17 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O17 { #[cbor(optional)] pub f: [u8; 3] }
impl Subj for O17 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <[u8; 3] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O17".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O17 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O17 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O17 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A17(pub [u8; 3], pub [u8; 3]);
impl Subj for A17 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[u8; 3] as Subj>::ty()), fld(NULL, <[u8; 3] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A17".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A17(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A17(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A17 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP17 { #[cbor(optional)] pub inner: O17, pub other: P17 }
impl Subj for PP17 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O17 as Subj>::ty()).opt(), fld(t("other"), <P17 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP17".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP17 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP17 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP17 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P18 { pub f: [u16; 0] }
impl Subj for P18 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <[u16; 0] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P18".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P18 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P18 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P18 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O18 { #[cbor(optional)] pub f: [u16; 0] }
impl Subj for O18 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <[u16; 0] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O18".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O18 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O18 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O18 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A18(pub [u16; 0], pub [u16; 0]);
impl Subj for A18 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[u16; 0] as Subj>::ty()), fld(NULL, <[u16; 0] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A18".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A18(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A18(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A18 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP18 { #[cbor(optional)] pub inner: O18, pub other: P18 }
impl Subj for PP18 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O18 as Subj>::ty()).opt(), fld(t("other"), <P18 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP18".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP18 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP18 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP18 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P19 { pub f: [u16; 2] }
impl Subj for P19 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <[u16; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P19".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P19 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P19 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P19 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O19 { #[cbor(optional)] pub f: [u16; 2] }
impl Subj for O19 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <[u16; 2] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O19".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O19 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O19 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O19 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A19(pub [u16; 2], pub [u16; 2]);
impl Subj for A19 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[u16; 2] as Subj>::ty()), fld(NULL, <[u16; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A19".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A19(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A19(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A19 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP19 { #[cbor(optional)] pub inner: O19, pub other: P19 }
impl Subj for PP19 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O19 as Subj>::ty()).opt(), fld(t("other"), <P19 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP19".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP19 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP19 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP19 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P20 { pub f: (u8,) }
impl Subj for P20 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(u8,) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P20".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P20 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P20 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P20 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O20 { #[cbor(optional)] pub f: (u8,) }
impl Subj for O20 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(u8,) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O20".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O20 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O20 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O20 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A20(pub (u8,), pub (u8,));
impl Subj for A20 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(u8,) as Subj>::ty()), fld(NULL, <(u8,) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A20".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A20(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A20(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A20 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP20 { #[cbor(optional)] pub inner: O20, pub other: P20 }
impl Subj for PP20 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O20 as Subj>::ty()).opt(), fld(t("other"), <P20 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP20".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP20 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP20 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP20 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P21 { pub f: (u8, String) }
impl Subj for P21 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(u8, String) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P21".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P21 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P21 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P21 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O21 { #[cbor(optional)] pub f: (u8, String) }
impl Subj for O21 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(u8, String) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O21".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O21 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O21 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O21 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A21(pub (u8, String), pub (u8, String));
impl Subj for A21 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(u8, String) as Subj>::ty()), fld(NULL, <(u8, String) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A21".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A21(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A21(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A21 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP21 { #[cbor(optional)] pub inner: O21, pub other: P21 }
impl Subj for PP21 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O21 as Subj>::ty()).opt(), fld(t("other"), <P21 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP21".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP21 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP21 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP21 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P22 { pub f: (Option<u8>, [u8; 2]) }
impl Subj for P22 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(Option<u8>, [u8; 2]) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P22".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P22 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P22 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P22 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O22 { #[cbor(optional)] pub f: (Option<u8>, [u8; 2]) }
impl Subj for O22 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(Option<u8>, [u8; 2]) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O22".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O22 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O22 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O22 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A22(pub (Option<u8>, [u8; 2]), pub (Option<u8>, [u8; 2]));
impl Subj for A22 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Option<u8>, [u8; 2]) as Subj>::ty()), fld(NULL, <(Option<u8>, [u8; 2]) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A22".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A22(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A22(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A22 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP22 { #[cbor(optional)] pub inner: O22, pub other: P22 }
impl Subj for PP22 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O22 as Subj>::ty()).opt(), fld(t("other"), <P22 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP22".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP22 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP22 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP22 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P23 { pub f: ((), ()) }
impl Subj for P23 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <((), ()) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P23".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P23 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P23 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P23 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O23 { #[cbor(optional)] pub f: ((), ()) }
impl Subj for O23 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <((), ()) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O23".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O23 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O23 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O23 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A23(pub ((), ()), pub ((), ()));
impl Subj for A23 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <((), ()) as Subj>::ty()), fld(NULL, <((), ()) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A23".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A23(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A23(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A23 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP23 { #[cbor(optional)] pub inner: O23, pub other: P23 }
impl Subj for PP23 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O23 as Subj>::ty()).opt(), fld(t("other"), <P23 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP23".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP23 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP23 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP23 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P24 { pub f: (u8, EN) }
impl Subj for P24 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(u8, EN) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P24".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P24 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P24 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P24 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O24 { #[cbor(optional)] pub f: (u8, EN) }
impl Subj for O24 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(u8, EN) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O24".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O24 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O24 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O24 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A24(pub (u8, EN), pub (u8, EN));
impl Subj for A24 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(u8, EN) as Subj>::ty()), fld(NULL, <(u8, EN) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A24".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A24(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A24(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A24 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP24 { #[cbor(optional)] pub inner: O24, pub other: P24 }
impl Subj for PP24 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O24 as Subj>::ty()).opt(), fld(t("other"), <P24 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP24".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP24 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP24 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP24 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P25 { pub f: Option<u8> }
impl Subj for P25 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P25".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P25 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P25 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P25 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O25 { #[cbor(optional)] pub f: Option<u8> }
impl Subj for O25 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O25".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O25 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O25 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O25 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A25(pub Option<u8>, pub Option<u8>);
impl Subj for A25 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u8> as Subj>::ty()), fld(NULL, <Option<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A25".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A25(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A25(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A25 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP25 { #[cbor(optional)] pub inner: O25, pub other: P25 }
impl Subj for PP25 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O25 as Subj>::ty()).opt(), fld(t("other"), <P25 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP25".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP25 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP25 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP25 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P26 { pub f: Option<String> }
impl Subj for P26 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<String> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P26".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P26 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P26 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P26 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O26 { #[cbor(optional)] pub f: Option<String> }
impl Subj for O26 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<String> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O26".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O26 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O26 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O26 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A26(pub Option<String>, pub Option<String>);
impl Subj for A26 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<String> as Subj>::ty()), fld(NULL, <Option<String> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A26".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A26(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A26(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A26 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP26 { #[cbor(optional)] pub inner: O26, pub other: P26 }
impl Subj for PP26 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O26 as Subj>::ty()).opt(), fld(t("other"), <P26 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP26".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP26 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP26 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP26 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P27 { pub f: Option<Vec<u8>> }
impl Subj for P27 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<Vec<u8>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P27".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P27 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P27 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P27 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O27 { #[cbor(optional)] pub f: Option<Vec<u8>> }
impl Subj for O27 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<Vec<u8>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O27".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O27 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O27 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O27 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A27(pub Option<Vec<u8>>, pub Option<Vec<u8>>);
impl Subj for A27 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<Vec<u8>> as Subj>::ty()), fld(NULL, <Option<Vec<u8>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A27".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A27(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A27(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A27 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP27 { #[cbor(optional)] pub inner: O27, pub other: P27 }
impl Subj for PP27 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O27 as Subj>::ty()).opt(), fld(t("other"), <P27 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP27".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP27 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP27 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP27 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P28 { pub f: BTreeMap<String, u8> }
impl Subj for P28 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <BTreeMap<String, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P28".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P28 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P28 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P28 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O28 { #[cbor(optional)] pub f: BTreeMap<String, u8> }
impl Subj for O28 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <BTreeMap<String, u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O28".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O28 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O28 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O28 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A28(pub BTreeMap<String, u8>, pub BTreeMap<String, u8>);
impl Subj for A28 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty()), fld(NULL, <BTreeMap<String, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A28".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A28(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A28(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A28 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP28 { #[cbor(optional)] pub inner: O28, pub other: P28 }
impl Subj for PP28 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O28 as Subj>::ty()).opt(), fld(t("other"), <P28 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP28".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP28 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP28 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP28 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P29 { pub f: HashMap<u8, String> }
impl Subj for P29 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <HashMap<u8, String> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P29".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P29 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P29 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P29 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O29 { #[cbor(optional)] pub f: HashMap<u8, String> }
impl Subj for O29 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <HashMap<u8, String> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O29".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O29 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O29 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O29 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A29(pub HashMap<u8, String>, pub HashMap<u8, String>);
impl Subj for A29 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <HashMap<u8, String> as Subj>::ty()), fld(NULL, <HashMap<u8, String> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A29".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A29(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A29(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A29 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP29 { #[cbor(optional)] pub inner: O29, pub other: P29 }
impl Subj for PP29 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O29 as Subj>::ty()).opt(), fld(t("other"), <P29 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP29".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP29 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP29 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP29 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P30 { pub f: BTreeSet<u8> }
impl Subj for P30 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <BTreeSet<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P30".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P30 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P30 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P30 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O30 { #[cbor(optional)] pub f: BTreeSet<u8> }
impl Subj for O30 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <BTreeSet<u8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O30".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O30 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O30 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O30 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A30(pub BTreeSet<u8>, pub BTreeSet<u8>);
impl Subj for A30 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeSet<u8> as Subj>::ty()), fld(NULL, <BTreeSet<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A30".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A30(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A30(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A30 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP30 { #[cbor(optional)] pub inner: O30, pub other: P30 }
impl Subj for PP30 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O30 as Subj>::ty()).opt(), fld(t("other"), <P30 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP30".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP30 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP30 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP30 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P31 { pub f: HashSet<String> }
impl Subj for P31 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <HashSet<String> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P31".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P31 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P31 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P31 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O31 { #[cbor(optional)] pub f: HashSet<String> }
impl Subj for O31 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <HashSet<String> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O31".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O31 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O31 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O31 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A31(pub HashSet<String>, pub HashSet<String>);
impl Subj for A31 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <HashSet<String> as Subj>::ty()), fld(NULL, <HashSet<String> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A31".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A31(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A31(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A31 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP31 { #[cbor(optional)] pub inner: O31, pub other: P31 }
impl Subj for PP31 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O31 as Subj>::ty()).opt(), fld(t("other"), <P31 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP31".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP31 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP31 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP31 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P32 { pub f: Vec<Option<u8>> }
impl Subj for P32 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<Option<u8>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P32".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P32 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P32 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P32 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O32 { #[cbor(optional)] pub f: Vec<Option<u8>> }
impl Subj for O32 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<Option<u8>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O32".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O32 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O32 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O32 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A32(pub Vec<Option<u8>>, pub Vec<Option<u8>>);
impl Subj for A32 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<Option<u8>> as Subj>::ty()), fld(NULL, <Vec<Option<u8>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A32".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A32(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A32(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A32 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP32 { #[cbor(optional)] pub inner: O32, pub other: P32 }
impl Subj for PP32 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O32 as Subj>::ty()).opt(), fld(t("other"), <P32 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP32".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP32 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP32 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP32 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P33 { pub f: Vec<Vec<u8>> }
impl Subj for P33 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<Vec<u8>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P33".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P33 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P33 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P33 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O33 { #[cbor(optional)] pub f: Vec<Vec<u8>> }
impl Subj for O33 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<Vec<u8>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O33".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O33 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O33 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O33 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A33(pub Vec<Vec<u8>>, pub Vec<Vec<u8>>);
impl Subj for A33 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<Vec<u8>> as Subj>::ty()), fld(NULL, <Vec<Vec<u8>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A33".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A33(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A33(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A33 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP33 { #[cbor(optional)] pub inner: O33, pub other: P33 }
impl Subj for PP33 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O33 as Subj>::ty()).opt(), fld(t("other"), <P33 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP33".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP33 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP33 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP33 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P34 { pub f: Option<Option<u8>> }
impl Subj for P34 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<Option<u8>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P34".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P34 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P34 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P34 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O34 { #[cbor(optional)] pub f: Option<Option<u8>> }
impl Subj for O34 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<Option<u8>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O34".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O34 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O34 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O34 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A34(pub Option<Option<u8>>, pub Option<Option<u8>>);
impl Subj for A34 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<Option<u8>> as Subj>::ty()), fld(NULL, <Option<Option<u8>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A34".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A34(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A34(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A34 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP34 { #[cbor(optional)] pub inner: O34, pub other: P34 }
impl Subj for PP34 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O34 as Subj>::ty()).opt(), fld(t("other"), <P34 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP34".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP34 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP34 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP34 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P35 { pub f: Vec<()> }
impl Subj for P35 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<()> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P35".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P35 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P35 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P35 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O35 { #[cbor(optional)] pub f: Vec<()> }
impl Subj for O35 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<()> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O35".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O35 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O35 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O35 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A35(pub Vec<()>, pub Vec<()>);
impl Subj for A35 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<()> as Subj>::ty()), fld(NULL, <Vec<()> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A35".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A35(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A35(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A35 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP35 { #[cbor(optional)] pub inner: O35, pub other: P35 }
impl Subj for PP35 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O35 as Subj>::ty()).opt(), fld(t("other"), <P35 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP35".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP35 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP35 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP35 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P36 { pub f: (NS, u8) }
impl Subj for P36 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(NS, u8) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P36".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P36 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P36 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P36 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O36 { #[cbor(optional)] pub f: (NS, u8) }
impl Subj for O36 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(NS, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O36".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O36 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O36 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O36 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A36(pub (NS, u8), pub (NS, u8));
impl Subj for A36 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(NS, u8) as Subj>::ty()), fld(NULL, <(NS, u8) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A36".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A36(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A36(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A36 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP36 { #[cbor(optional)] pub inner: O36, pub other: P36 }
impl Subj for PP36 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O36 as Subj>::ty()).opt(), fld(t("other"), <P36 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP36".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP36 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP36 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP36 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P37 { pub f: Vec<EN> }
impl Subj for P37 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P37".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P37 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P37 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P37 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O37 { #[cbor(optional)] pub f: Vec<EN> }
impl Subj for O37 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<EN> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O37".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O37 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O37 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O37 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A37(pub Vec<EN>, pub Vec<EN>);
impl Subj for A37 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<EN> as Subj>::ty()), fld(NULL, <Vec<EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A37".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A37(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A37(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A37 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP37 { #[cbor(optional)] pub inner: O37, pub other: P37 }
impl Subj for PP37 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O37 as Subj>::ty()).opt(), fld(t("other"), <P37 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP37".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP37 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP37 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP37 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P38 { pub f: [NS; 2] }
impl Subj for P38 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <[NS; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P38".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P38 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P38 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P38 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O38 { #[cbor(optional)] pub f: [NS; 2] }
impl Subj for O38 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <[NS; 2] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O38".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O38 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O38 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O38 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A38(pub [NS; 2], pub [NS; 2]);
impl Subj for A38 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[NS; 2] as Subj>::ty()), fld(NULL, <[NS; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A38".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A38(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A38(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A38 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP38 { #[cbor(optional)] pub inner: O38, pub other: P38 }
impl Subj for PP38 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O38 as Subj>::ty()).opt(), fld(t("other"), <P38 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP38".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP38 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP38 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP38 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P39 { pub f: BTreeMap<u8, Option<u8>> }
impl Subj for P39 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <BTreeMap<u8, Option<u8>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P39".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P39 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P39 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P39 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O39 { #[cbor(optional)] pub f: BTreeMap<u8, Option<u8>> }
impl Subj for O39 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <BTreeMap<u8, Option<u8>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O39".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O39 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O39 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O39 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A39(pub BTreeMap<u8, Option<u8>>, pub BTreeMap<u8, Option<u8>>);
impl Subj for A39 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<u8, Option<u8>> as Subj>::ty()), fld(NULL, <BTreeMap<u8, Option<u8>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A39".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A39(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A39(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A39 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP39 { #[cbor(optional)] pub inner: O39, pub other: P39 }
impl Subj for PP39 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O39 as Subj>::ty()).opt(), fld(t("other"), <P39 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP39".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP39 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP39 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP39 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P40 { pub f: (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8) }
impl Subj for P40 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P40".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P40 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P40 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P40 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O40 { #[cbor(optional)] pub f: (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8) }
impl Subj for O40 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O40".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O40 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O40 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O40 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A40(pub (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), pub (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8));
impl Subj for A40 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8) as Subj>::ty()), fld(NULL, <(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A40".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A40(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A40(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A40 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP40 { #[cbor(optional)] pub inner: O40, pub other: P40 }
impl Subj for PP40 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O40 as Subj>::ty()).opt(), fld(t("other"), <P40 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP40".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP40 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP40 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP40 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P41 { pub f: (u8, [u16; 2]) }
impl Subj for P41 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(u8, [u16; 2]) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P41".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P41 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P41 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P41 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O41 { #[cbor(optional)] pub f: (u8, [u16; 2]) }
impl Subj for O41 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(u8, [u16; 2]) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O41".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O41 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O41 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O41 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A41(pub (u8, [u16; 2]), pub (u8, [u16; 2]));
impl Subj for A41 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(u8, [u16; 2]) as Subj>::ty()), fld(NULL, <(u8, [u16; 2]) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A41".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A41(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A41(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A41 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP41 { #[cbor(optional)] pub inner: O41, pub other: P41 }
impl Subj for PP41 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O41 as Subj>::ty()).opt(), fld(t("other"), <P41 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP41".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP41 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP41 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP41 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P42 { pub f: Option<NS> }
impl Subj for P42 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<NS> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P42".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P42 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P42 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P42 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O42 { #[cbor(optional)] pub f: Option<NS> }
impl Subj for O42 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<NS> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O42".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O42 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O42 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O42 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A42(pub Option<NS>, pub Option<NS>);
impl Subj for A42 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<NS> as Subj>::ty()), fld(NULL, <Option<NS> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A42".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A42(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A42(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A42 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP42 { #[cbor(optional)] pub inner: O42, pub other: P42 }
impl Subj for PP42 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O42 as Subj>::ty()).opt(), fld(t("other"), <P42 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP42".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP42 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP42 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP42 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P43 { pub f: Option<UN> }
impl Subj for P43 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<UN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P43".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P43 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P43 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P43 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O43 { #[cbor(optional)] pub f: Option<UN> }
impl Subj for O43 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<UN> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O43".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O43 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O43 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O43 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A43(pub Option<UN>, pub Option<UN>);
impl Subj for A43 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<UN> as Subj>::ty()), fld(NULL, <Option<UN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A43".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A43(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A43(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A43 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP43 { #[cbor(optional)] pub inner: O43, pub other: P43 }
impl Subj for PP43 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O43 as Subj>::ty()).opt(), fld(t("other"), <P43 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP43".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP43 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP43 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP43 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P44 { pub f: Vec<UN> }
impl Subj for P44 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<UN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P44".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P44 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P44 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P44 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O44 { #[cbor(optional)] pub f: Vec<UN> }
impl Subj for O44 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<UN> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O44".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O44 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O44 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O44 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A44(pub Vec<UN>, pub Vec<UN>);
impl Subj for A44 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<UN> as Subj>::ty()), fld(NULL, <Vec<UN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A44".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A44(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A44(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A44 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP44 { #[cbor(optional)] pub inner: O44, pub other: P44 }
impl Subj for PP44 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O44 as Subj>::ty()).opt(), fld(t("other"), <P44 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP44".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP44 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP44 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP44 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P45 { pub f: Vec<TW> }
impl Subj for P45 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<TW> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P45".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P45 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P45 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P45 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O45 { #[cbor(optional)] pub f: Vec<TW> }
impl Subj for O45 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<TW> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O45".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O45 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O45 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O45 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A45(pub Vec<TW>, pub Vec<TW>);
impl Subj for A45 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<TW> as Subj>::ty()), fld(NULL, <Vec<TW> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A45".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A45(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A45(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A45 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP45 { #[cbor(optional)] pub inner: O45, pub other: P45 }
impl Subj for PP45 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O45 as Subj>::ty()).opt(), fld(t("other"), <P45 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP45".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP45 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP45 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP45 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P46 { pub f: Vec<ND> }
impl Subj for P46 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<ND> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P46".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P46 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P46 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P46 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O46 { #[cbor(optional)] pub f: Vec<ND> }
impl Subj for O46 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<ND> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O46".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O46 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O46 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O46 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A46(pub Vec<ND>, pub Vec<ND>);
impl Subj for A46 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<ND> as Subj>::ty()), fld(NULL, <Vec<ND> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A46".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A46(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A46(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A46 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP46 { #[cbor(optional)] pub inner: O46, pub other: P46 }
impl Subj for PP46 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O46 as Subj>::ty()).opt(), fld(t("other"), <P46 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP46".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP46 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP46 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP46 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P47 { pub f: Option<ND> }
impl Subj for P47 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<ND> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P47".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P47 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P47 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P47 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O47 { #[cbor(optional)] pub f: Option<ND> }
impl Subj for O47 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<ND> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O47".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O47 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O47 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O47 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A47(pub Option<ND>, pub Option<ND>);
impl Subj for A47 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<ND> as Subj>::ty()), fld(NULL, <Option<ND> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A47".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A47(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A47(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A47 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP47 { #[cbor(optional)] pub inner: O47, pub other: P47 }
impl Subj for PP47 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O47 as Subj>::ty()).opt(), fld(t("other"), <P47 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP47".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP47 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP47 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP47 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P48 { pub f: [EN; 1] }
impl Subj for P48 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <[EN; 1] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P48".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P48 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P48 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P48 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O48 { #[cbor(optional)] pub f: [EN; 1] }
impl Subj for O48 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <[EN; 1] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O48".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O48 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O48 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O48 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A48(pub [EN; 1], pub [EN; 1]);
impl Subj for A48 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[EN; 1] as Subj>::ty()), fld(NULL, <[EN; 1] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A48".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A48(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A48(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A48 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP48 { #[cbor(optional)] pub inner: O48, pub other: P48 }
impl Subj for PP48 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O48 as Subj>::ty()).opt(), fld(t("other"), <P48 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP48".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP48 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP48 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP48 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P49 { pub f: (ED, UN, CD) }
impl Subj for P49 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(ED, UN, CD) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P49".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P49 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P49 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P49 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O49 { #[cbor(optional)] pub f: (ED, UN, CD) }
impl Subj for O49 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <(ED, UN, CD) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O49".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O49 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O49 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O49 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A49(pub (ED, UN, CD), pub (ED, UN, CD));
impl Subj for A49 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(ED, UN, CD) as Subj>::ty()), fld(NULL, <(ED, UN, CD) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A49".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A49(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A49(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A49 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP49 { #[cbor(optional)] pub inner: O49, pub other: P49 }
impl Subj for PP49 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O49 as Subj>::ty()).opt(), fld(t("other"), <P49 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP49".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP49 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP49 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP49 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P50 { pub f: Option<CD> }
impl Subj for P50 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<CD> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P50".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P50 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P50 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P50 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O50 { #[cbor(optional)] pub f: Option<CD> }
impl Subj for O50 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Option<CD> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O50".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O50 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O50 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O50 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A50(pub Option<CD>, pub Option<CD>);
impl Subj for A50 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<CD> as Subj>::ty()), fld(NULL, <Option<CD> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A50".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A50(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A50(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A50 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP50 { #[cbor(optional)] pub inner: O50, pub other: P50 }
impl Subj for PP50 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O50 as Subj>::ty()).opt(), fld(t("other"), <P50 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP50".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP50 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP50 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP50 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct P51 { pub f: Vec<CD> }
impl Subj for P51 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<CD> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "P51".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let P51 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        P51 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for P51 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct O51 { #[cbor(optional)] pub f: Vec<CD> }
impl Subj for O51 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f"), <Vec<CD> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "O51".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let O51 { f: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        O51 { f: Subj::from_d(&v[0]) }
    }
}
impl Default for O51 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct A51(pub Vec<CD>, pub Vec<CD>);
impl Subj for A51 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<CD> as Subj>::ty()), fld(NULL, <Vec<CD> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "A51".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let A51(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        A51(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for A51 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct PP51 { #[cbor(optional)] pub inner: O51, pub other: P51 }
impl Subj for PP51 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <O51 as Subj>::ty()).opt(), fld(t("other"), <P51 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "PP51".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let PP51 { inner: x0, other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        PP51 { inner: Subj::from_d(&v[0]), other: Subj::from_d(&v[1]) }
    }
}
impl Default for PP51 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct G<T> where T: Subj + Encode + Decode + Default { pub b: T, #[cbor(optional)] pub a: Vec<T> }
impl<T> Subj for G<T> where T: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <T as Subj>::ty()), fld(t("a"), <Vec<T> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "G".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let G { b: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        G { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl<T> Default for G<T> where T: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct GW<T>(pub T) where T: Subj + Encode + Decode + Default;
impl<T> Subj for GW<T> where T: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <T as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "GW".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let GW(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        GW(Subj::from_d(&v[0]))
    }
}
impl<T> Default for GW<T> where T: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct GI<T: Subj + Encode + Decode + Default>(pub T, pub u8);
impl<T: Subj + Encode + Decode + Default> Subj for GI<T> {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <T as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "GI".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let GI(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        GI(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl<T: Subj + Encode + Decode + Default> Default for GI<T> {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct G2<A, B = u8> where A: Subj + Encode + Decode + Default, B: Subj + Encode + Decode + Default { pub y: A, #[cbor(optional)] pub x: BTreeMap<u8, B> }
impl<A, B> Subj for G2<A, B> where A: Subj + Encode + Decode + Default, B: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <A as Subj>::ty()), fld(t("x"), <BTreeMap<u8, B> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "G2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let G2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        G2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl<A, B> Default for G2<A, B> where A: Subj + Encode + Decode + Default, B: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct GA<T: Iterator> where T::Item: Subj + Encode + Decode + Default { pub item: Option<T::Item>, #[cbor(rename = 1)] pub rest: Vec<T::Item> }
impl<T: Iterator> Subj for GA<T> where T::Item: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("item"), <Option<T::Item> as Subj>::ty()), fld(M::U(1), <Vec<T::Item> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "GA".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let GA { item: x0, rest: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        GA { item: Subj::from_d(&v[0]), rest: Subj::from_d(&v[1]) }
    }
}
impl<T: Iterator> Default for GA<T> where T::Item: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct GP<T> { pub a: u8, #[cbor(skip)] pub mark: std::marker::PhantomData<T> }
impl<T> Subj for GP<T> {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()), fld(t("mark"), <std::marker::PhantomData<T> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "GP".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let GP { a: x0, mark: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        GP { a: Subj::from_d(&v[0]), mark: Subj::from_d(&v[1]) }
    }
}
impl<T> Default for GP<T> {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct GPT<T>(#[cbor(skip)] pub std::marker::PhantomData<T>, pub String);
impl<T> Subj for GPT<T> {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <std::marker::PhantomData<T> as Subj>::ty()).skipped(), fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "GPT".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let GPT(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        GPT(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl<T> Default for GPT<T> {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct CG<const N: usize> { pub w: [u16; N], #[cbor(optional)] pub b: [u8; N] }
impl<const N: usize> Subj for CG<N> {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("w"), <[u16; N] as Subj>::ty()), fld(t("b"), <[u8; N] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "CG".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let CG { w: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        CG { w: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl<const N: usize> Default for CG<N> {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct CT<const N: usize, const K: usize>(pub [u8; N], pub [[bool; N]; K]);
impl<const N: usize, const K: usize> Subj for CT<N, K> {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[u8; N] as Subj>::ty()), fld(NULL, <[[bool; N]; K] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "CT".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let CT(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        CT(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl<const N: usize, const K: usize> Default for CT<N, K> {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct CW<T, const N: usize>(pub [T; N]) where T: Subj + Encode + Decode + Default;
impl<T, const N: usize> Subj for CW<T, N> where T: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[T; N] as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "CW".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let CW(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        CW(Subj::from_d(&v[0]))
    }
}
#[derive(Encode)]
pub struct LN<'a> { pub s: &'a str, #[cbor(optional)] pub n: &'a u128, #[cbor(rename = 3, optional)] pub o: Option<&'a str>, pub m: BTreeMap<&'a str, &'a u128>, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub v: Vec<&'a str> }
impl Subj for LN<'static> {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("s"), <&'static str as Subj>::ty()), fld(t("n"), <&'static u128 as Subj>::ty()).opt(), fld(M::U(3), <Option<&'static str> as Subj>::ty()).opt(), fld(t("m"), <BTreeMap<&'static str, &'static u128> as Subj>::ty()), fld(t("v"), <Vec<&'static str> as Subj>::ty()).opt().skip_when(|d| d.seq().is_empty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "LN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let LN { s: x0, n: x1, o: x2, m: x3, v: x4 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        LN { s: Subj::from_d(&v[0]), n: Subj::from_d(&v[1]), o: Subj::from_d(&v[2]), m: Subj::from_d(&v[3]), v: Subj::from_d(&v[4]) }
    }
}
#[derive(Encode)]
#[cbor(as_array)]
pub struct LA<'a> { pub s: &'a str, #[cbor(optional)] pub n: &'a u128, #[cbor(rename = 3, optional)] pub o: Option<&'a str>, pub m: BTreeMap<&'a str, &'a u128> }
impl Subj for LA<'static> {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("s"), <&'static str as Subj>::ty()), fld(t("n"), <&'static u128 as Subj>::ty()).opt(), fld(M::U(3), <Option<&'static str> as Subj>::ty()).opt(), fld(t("m"), <BTreeMap<&'static str, &'static u128> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "LA".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let LA { s: x0, n: x1, o: x2, m: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        LA { s: Subj::from_d(&v[0]), n: Subj::from_d(&v[1]), o: Subj::from_d(&v[2]), m: Subj::from_d(&v[3]) }
    }
}
#[derive(Encode)]
pub struct LT<'a>(pub &'a str, #[cbor(optional)] pub &'a u128, #[cbor(rename = 3, optional)] pub Option<&'a str>, pub BTreeMap<&'a str, &'a u128>);
impl Subj for LT<'static> {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("s"), <&'static str as Subj>::ty()), fld(t("n"), <&'static u128 as Subj>::ty()).opt(), fld(M::U(3), <Option<&'static str> as Subj>::ty()).opt(), fld(t("m"), <BTreeMap<&'static str, &'static u128> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "LT".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let LT(x0, x1, x2, x3) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        LT(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]), Subj::from_d(&v[3]))
    }
}
#[derive(Encode)]
#[cbor(transparent)]
pub struct LS<'a>(pub &'a str);
impl Subj for LS<'static> {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <&'static str as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "LS".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let LS(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        LS(Subj::from_d(&v[0]))
    }
}
#[derive(Encode)]
pub struct LI<'a> { pub deep: LN<'a>, #[cbor(optional)] pub flat: LS<'a>, pub both: (LT<'a>, &'a u128) }
impl Subj for LI<'static> {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("deep"), <LN<'static> as Subj>::ty()), fld(t("flat"), <LS<'static> as Subj>::ty()).opt(), fld(t("both"), <(LT<'static>, &'static u128) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "LI".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let LI { deep: x0, flat: x1, both: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        LI { deep: Subj::from_d(&v[0]), flat: Subj::from_d(&v[1]), both: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
pub struct R1 { pub b: u8, pub a: Vec<R1> }
impl Subj for R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <u8 as Subj>::ty()), fld(t("a"), Ty::Seq(Arc::new(Ty::Rec(R1::ty))))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R1 { b: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R1 { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct R2 { #[cbor(optional)] pub a: BTreeMap<u8, R2>, #[cbor(optional)] pub c: String }
impl Subj for R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), Ty::Map(Arc::new(u8::ty()), Arc::new(Ty::Rec(R2::ty)))).opt(), fld(t("c"), <String as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R2 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R2 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct R3 { pub a: Option<Vec<R3>> }
impl Subj for R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), Ty::Opt(Arc::new(Ty::Seq(Arc::new(Ty::Rec(R3::ty))))))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let R3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R3 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct R4(pub u8, pub Vec<R4>);
impl Subj for R4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(t("a"), Ty::Seq(Arc::new(Ty::Rec(R4::ty))))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R4(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R4(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for R4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct R5 { pub a: Vec<Vec<R5>>, pub c: bool }
impl Subj for R5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), Ty::Seq(Arc::new(Ty::Seq(Arc::new(Ty::Rec(R5::ty)))))), fld(t("c"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R5".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R5 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R5 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for R5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct R6(pub Vec<R6>);
impl Subj for R6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), Ty::Seq(Arc::new(Ty::Rec(R6::ty))))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R6".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R6(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R6(Subj::from_d(&v[0]))
    }
}
impl Default for R6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct R7(pub BTreeMap<u8, R7>);
impl Subj for R7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), Ty::Map(Arc::new(u8::ty()), Arc::new(Ty::Rec(R7::ty))))];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "R7".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R7(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R7(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct R8 { pub a: Vec<R9> }
impl Subj for R8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), Ty::Seq(Arc::new(Ty::Rec(R9::ty))))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R8 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R8 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for R8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct R9 { #[cbor(optional, rename = 7)] pub zz: BTreeMap<u8, R8>, pub b: Option<u8> }
impl Subj for R9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(7), Ty::Map(Arc::new(u8::ty()), Arc::new(Ty::Rec(R8::ty)))).opt(), fld(t("b"), <Option<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R9".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R9 { zz: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R9 { zz: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for R9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct R10 { #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub k: Vec<R10>, pub u: u8 }
impl Subj for R10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("k"), Ty::Seq(Arc::new(Ty::Rec(R10::ty)))).opt().skip_when(|d| d.seq().is_empty()), fld(t("u"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R10".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R10 { k: x0, u: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R10 { k: Subj::from_d(&v[0]), u: Subj::from_d(&v[1]) }
    }
}
impl Default for R10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub enum ER {
    Nil,
    Leaf(u8),
    Many(Vec<ER>),
    Named { m: BTreeMap<u8, ER> },
}
impl Subj for ER {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ER".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Nil"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Leaf"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Many"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), Ty::Seq(Arc::new(Ty::Rec(ER::ty))))] },
            VariantTy { key: t("Named"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("m"), Ty::Map(Arc::new(u8::ty()), Arc::new(Ty::Rec(ER::ty))))] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ER::Nil => D::Var(0, vec![]),
            ER::Leaf(x0) => D::Var(1, vec![x0.to_d()]),
            ER::Many(x0) => D::Var(2, vec![x0.to_d()]),
            ER::Named { m: x0 } => D::Var(3, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ER::Nil,
            1 => ER::Leaf(Subj::from_d(&v[0])),
            2 => ER::Many(Subj::from_d(&v[0])),
            3 => ER::Named { m: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for ER {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub struct R11 { pub e: ER, #[cbor(optional)] pub o: Option<ER>, pub r: Vec<R1> }
impl Subj for R11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("e"), <ER as Subj>::ty()), fld(t("o"), <Option<ER> as Subj>::ty()).opt(), fld(t("r"), <Vec<R1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R11".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R11 { e: x0, o: x1, r: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R11 { e: Subj::from_d(&v[0]), o: Subj::from_d(&v[1]), r: Subj::from_d(&v[2]) }
    }
}
impl Default for R11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Deep1 { pub s: Vec<Order1>, #[cbor(optional)] pub m: BTreeMap<u8, S3_0_1>, pub o: Option<T_u8_OOpt> }
impl Subj for Deep1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("s"), <Vec<Order1> as Subj>::ty()), fld(t("m"), <BTreeMap<u8, S3_0_1> as Subj>::ty()).opt(), fld(t("o"), <Option<T_u8_OOpt> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Deep1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Deep1 { s: x0, m: x1, o: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Deep1 { s: Subj::from_d(&v[0]), m: Subj::from_d(&v[1]), o: Subj::from_d(&v[2]) }
    }
}
impl Default for Deep1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Deep2(pub Deep1, pub Vec<Deep1>);
impl Subj for Deep2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Deep1 as Subj>::ty()), fld(NULL, <Vec<Deep1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Deep2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Deep2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Deep2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for Deep2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Rec { pub n: u8, #[cbor(optional, skip_serializing_if = "Vec::is_empty")] pub next: Vec<Deep2> }
impl Subj for Rec {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("n"), <u8 as Subj>::ty()), fld(t("next"), <Vec<Deep2> as Subj>::ty()).opt().skip_when(|d| d.seq().is_empty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Rec".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Rec { n: x0, next: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Rec { n: Subj::from_d(&v[0]), next: Subj::from_d(&v[1]) }
    }
}
impl Default for Rec {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}

pub fn types() -> Vec<Ops> {
    let mut v = vec![];
    types0(&mut v);
    types1(&mut v);
    types2(&mut v);
    types3(&mut v);
    types4(&mut v);
    types5(&mut v);
    types6(&mut v);
    types7(&mut v);
    types8(&mut v);
    types9(&mut v);
    types10(&mut v);
    types11(&mut v);
    types12(&mut v);
    types13(&mut v);
    types14(&mut v);
    types15(&mut v);
    types16(&mut v);
    types17(&mut v);
    types18(&mut v);
    types19(&mut v);
    types20(&mut v);
    types21(&mut v);
    types22(&mut v);
    types23(&mut v);
    types24(&mut v);
    types25(&mut v);
    types26(&mut v);
    types27(&mut v);
    types28(&mut v);
    types29(&mut v);
    types30(&mut v);
    types31(&mut v);
    v
}
fn types0(v: &mut Vec<Ops>) {
    v.push(marked!(EN, ops::<EN>("EN")));
    v.push(marked!(NS, ops::<NS>("NS")));
    v.push(marked!(NM, ops::<NM>("NM")));
    v.push(marked!(TW, ops::<TW>("TW")));
    v.push(marked!(UN, ops::<UN>("UN")));
    v.push(marked!(AR, ops::<AR>("AR")));
    v.push(marked!(ND, ops::<ND>("ND")));
    v.push(marked!(ED, ops::<ED>("ED")));
    v.push(marked!(S_u8, ops::<S_u8>("S_u8")));
    v.push(marked!(L_u8, ops::<L_u8>("L_u8")));
    v.push(marked!(Y_u8, ops::<Y_u8>("Y_u8")));
    v.push(marked!(T_u8, ops::<T_u8>("T_u8")));
    v.push(marked!(YU_u8, ops::<YU_u8>("YU_u8")));
    v.push(marked!(S_Str, ops::<S_Str>("S_Str")));
    v.push(marked!(L_Str, ops::<L_Str>("L_Str")));
    v.push(marked!(Y_Str, ops::<Y_Str>("Y_Str")));
    v.push(marked!(T_Str, ops::<T_Str>("T_Str")));
    v.push(marked!(YU_Str, ops::<YU_Str>("YU_Str")));
    v.push(marked!(S_Opt, ops::<S_Opt>("S_Opt")));
    v.push(marked!(L_Opt, ops::<L_Opt>("L_Opt")));
    v.push(marked!(Y_Opt, ops::<Y_Opt>("Y_Opt")));
    v.push(marked!(T_Opt, ops::<T_Opt>("T_Opt")));
    v.push(marked!(YU_Opt, ops::<YU_Opt>("YU_Opt")));
    v.push(marked!(S_OOpt, ops::<S_OOpt>("S_OOpt")));
    v.push(marked!(L_OOpt, ops::<L_OOpt>("L_OOpt")));
    v.push(marked!(Y_OOpt, ops::<Y_OOpt>("Y_OOpt")));
    v.push(marked!(T_OOpt, ops::<T_OOpt>("T_OOpt")));
    v.push(marked!(YU_OOpt, ops::<YU_OOpt>("YU_OOpt")));
    v.push(marked!(S_ONum, ops::<S_ONum>("S_ONum")));
    v.push(marked!(L_ONum, ops::<L_ONum>("L_ONum")));
    v.push(marked!(Y_ONum, ops::<Y_ONum>("Y_ONum")));
    v.push(marked!(T_ONum, ops::<T_ONum>("T_ONum")));
    v.push(marked!(YU_ONum, ops::<YU_ONum>("YU_ONum")));
    v.push(marked!(S_OVec, ops::<S_OVec>("S_OVec")));
    v.push(marked!(L_OVec, ops::<L_OVec>("L_OVec")));
    v.push(marked!(S_Skip, ops::<S_Skip>("S_Skip")));
    v.push(marked!(L_Skip, ops::<L_Skip>("L_Skip")));
    v.push(marked!(Y_Skip, ops::<Y_Skip>("Y_Skip")));
    v.push(marked!(T_Skip, ops::<T_Skip>("T_Skip")));
    v.push(marked!(YU_Skip, ops::<YU_Skip>("YU_Skip")));
    v.push(marked!(S_RText, ops::<S_RText>("S_RText")));
    v.push(marked!(L_RText, ops::<L_RText>("L_RText")));
    v.push(marked!(Y_RText, ops::<Y_RText>("Y_RText")));
    v.push(marked!(T_RText, ops::<T_RText>("T_RText")));
    v.push(marked!(YU_RText, ops::<YU_RText>("YU_RText")));
    v.push(marked!(S_RNum, ops::<S_RNum>("S_RNum")));
    v.push(marked!(L_RNum, ops::<L_RNum>("L_RNum")));
    v.push(marked!(Y_RNum, ops::<Y_RNum>("Y_RNum")));
    v.push(marked!(T_RNum, ops::<T_RNum>("T_RNum")));
    v.push(marked!(YU_RNum, ops::<YU_RNum>("YU_RNum")));
}
fn types1(v: &mut Vec<Ops>) {
    v.push(marked!(S_RLong, ops::<S_RLong>("S_RLong")));
    v.push(marked!(L_RLong, ops::<L_RLong>("L_RLong")));
    v.push(marked!(Y_RLong, ops::<Y_RLong>("Y_RLong")));
    v.push(marked!(T_RLong, ops::<T_RLong>("T_RLong")));
    v.push(marked!(YU_RLong, ops::<YU_RLong>("YU_RLong")));
    v.push(marked!(S_With, ops::<S_With>("S_With")));
    v.push(marked!(L_With, ops::<L_With>("L_With")));
    v.push(marked!(Y_With, ops::<Y_With>("Y_With")));
    v.push(marked!(T_With, ops::<T_With>("T_With")));
    v.push(marked!(YU_With, ops::<YU_With>("YU_With")));
    v.push(marked!(S_OWith, ops::<S_OWith>("S_OWith")));
    v.push(marked!(L_OWith, ops::<L_OWith>("L_OWith")));
    v.push(marked!(Y_OWith, ops::<Y_OWith>("Y_OWith")));
    v.push(marked!(T_OWith, ops::<T_OWith>("T_OWith")));
    v.push(marked!(YU_OWith, ops::<YU_OWith>("YU_OWith")));
    v.push(marked!(S_Ser, ops::<S_Ser>("S_Ser")));
    v.push(marked!(L_Ser, ops::<L_Ser>("L_Ser")));
    v.push(marked!(Y_Ser, ops::<Y_Ser>("Y_Ser")));
    v.push(marked!(T_Ser, ops::<T_Ser>("T_Ser")));
    v.push(marked!(YU_Ser, ops::<YU_Ser>("YU_Ser")));
    v.push(marked!(S_De, ops::<S_De>("S_De")));
    v.push(marked!(L_De, ops::<L_De>("L_De")));
    v.push(marked!(Y_De, ops::<Y_De>("Y_De")));
    v.push(marked!(T_De, ops::<T_De>("T_De")));
    v.push(marked!(YU_De, ops::<YU_De>("YU_De")));
    v.push(marked!(S_Val, ops::<S_Val>("S_Val")));
    v.push(marked!(L_Val, ops::<L_Val>("L_Val")));
    v.push(marked!(Y_Val, ops::<Y_Val>("Y_Val")));
    v.push(marked!(T_Val, ops::<T_Val>("T_Val")));
    v.push(marked!(YU_Val, ops::<YU_Val>("YU_Val")));
    v.push(marked!(S_NS, ops::<S_NS>("S_NS")));
    v.push(marked!(L_NS, ops::<L_NS>("L_NS")));
    v.push(marked!(Y_NS, ops::<Y_NS>("Y_NS")));
    v.push(marked!(T_NS, ops::<T_NS>("T_NS")));
    v.push(marked!(YU_NS, ops::<YU_NS>("YU_NS")));
    v.push(marked!(S_ONS, ops::<S_ONS>("S_ONS")));
    v.push(marked!(L_ONS, ops::<L_ONS>("L_ONS")));
    v.push(marked!(Y_ONS, ops::<Y_ONS>("Y_ONS")));
    v.push(marked!(T_ONS, ops::<T_ONS>("T_ONS")));
    v.push(marked!(YU_ONS, ops::<YU_ONS>("YU_ONS")));
    v.push(marked!(S_EN, ops::<S_EN>("S_EN")));
    v.push(marked!(L_EN, ops::<L_EN>("L_EN")));
    v.push(marked!(Y_EN, ops::<Y_EN>("Y_EN")));
    v.push(marked!(T_EN, ops::<T_EN>("T_EN")));
    v.push(marked!(YU_EN, ops::<YU_EN>("YU_EN")));
    v.push(marked!(S_ORNum, ops::<S_ORNum>("S_ORNum")));
    v.push(marked!(L_ORNum, ops::<L_ORNum>("L_ORNum")));
    v.push(marked!(S_OVal, ops::<S_OVal>("S_OVal")));
    v.push(marked!(L_OVal, ops::<L_OVal>("L_OVal")));
    v.push(marked!(Y_OVal, ops::<Y_OVal>("Y_OVal")));
}
fn types2(v: &mut Vec<Ops>) {
    v.push(marked!(T_OVal, ops::<T_OVal>("T_OVal")));
    v.push(marked!(YU_OVal, ops::<YU_OVal>("YU_OVal")));
    v.push(marked!(S_OTup, ops::<S_OTup>("S_OTup")));
    v.push(marked!(L_OTup, ops::<L_OTup>("L_OTup")));
    v.push(marked!(Y_OTup, ops::<Y_OTup>("Y_OTup")));
    v.push(marked!(T_OTup, ops::<T_OTup>("T_OTup")));
    v.push(marked!(YU_OTup, ops::<YU_OTup>("YU_OTup")));
    v.push(marked!(S_OTW, ops::<S_OTW>("S_OTW")));
    v.push(marked!(L_OTW, ops::<L_OTW>("L_OTW")));
    v.push(marked!(Y_OTW, ops::<Y_OTW>("Y_OTW")));
    v.push(marked!(T_OTW, ops::<T_OTW>("T_OTW")));
    v.push(marked!(YU_OTW, ops::<YU_OTW>("YU_OTW")));
    v.push(marked!(S_OUN, ops::<S_OUN>("S_OUN")));
    v.push(marked!(L_OUN, ops::<L_OUN>("L_OUN")));
    v.push(marked!(Y_OUN, ops::<Y_OUN>("Y_OUN")));
    v.push(marked!(T_OUN, ops::<T_OUN>("T_OUN")));
    v.push(marked!(YU_OUN, ops::<YU_OUN>("YU_OUN")));
    v.push(marked!(S_UN, ops::<S_UN>("S_UN")));
    v.push(marked!(L_UN, ops::<L_UN>("L_UN")));
    v.push(marked!(Y_UN, ops::<Y_UN>("Y_UN")));
    v.push(marked!(T_UN, ops::<T_UN>("T_UN")));
    v.push(marked!(YU_UN, ops::<YU_UN>("YU_UN")));
    v.push(marked!(S_OAR, ops::<S_OAR>("S_OAR")));
    v.push(marked!(L_OAR, ops::<L_OAR>("L_OAR")));
    v.push(marked!(Y_OAR, ops::<Y_OAR>("Y_OAR")));
    v.push(marked!(T_OAR, ops::<T_OAR>("T_OAR")));
    v.push(marked!(YU_OAR, ops::<YU_OAR>("YU_OAR")));
    v.push(marked!(S_AR, ops::<S_AR>("S_AR")));
    v.push(marked!(L_AR, ops::<L_AR>("L_AR")));
    v.push(marked!(Y_AR, ops::<Y_AR>("Y_AR")));
    v.push(marked!(T_AR, ops::<T_AR>("T_AR")));
    v.push(marked!(YU_AR, ops::<YU_AR>("YU_AR")));
    v.push(marked!(S_ND, ops::<S_ND>("S_ND")));
    v.push(marked!(L_ND, ops::<L_ND>("L_ND")));
    v.push(marked!(Y_ND, ops::<Y_ND>("Y_ND")));
    v.push(marked!(T_ND, ops::<T_ND>("T_ND")));
    v.push(marked!(YU_ND, ops::<YU_ND>("YU_ND")));
    v.push(marked!(S_OND, ops::<S_OND>("S_OND")));
    v.push(marked!(L_OND, ops::<L_OND>("L_OND")));
    v.push(marked!(Y_OND, ops::<Y_OND>("Y_OND")));
    v.push(marked!(T_OND, ops::<T_OND>("T_OND")));
    v.push(marked!(YU_OND, ops::<YU_OND>("YU_OND")));
    v.push(marked!(S_ED, ops::<S_ED>("S_ED")));
    v.push(marked!(L_ED, ops::<L_ED>("L_ED")));
    v.push(marked!(Y_ED, ops::<Y_ED>("Y_ED")));
    v.push(marked!(T_ED, ops::<T_ED>("T_ED")));
    v.push(marked!(YU_ED, ops::<YU_ED>("YU_ED")));
    v.push(marked!(S_OED, ops::<S_OED>("S_OED")));
    v.push(marked!(L_OED, ops::<L_OED>("L_OED")));
    v.push(marked!(Y_OED, ops::<Y_OED>("Y_OED")));
}
fn types3(v: &mut Vec<Ops>) {
    v.push(marked!(T_OED, ops::<T_OED>("T_OED")));
    v.push(marked!(YU_OED, ops::<YU_OED>("YU_OED")));
    v.push(marked!(S_OEN, ops::<S_OEN>("S_OEN")));
    v.push(marked!(L_OEN, ops::<L_OEN>("L_OEN")));
    v.push(marked!(Y_OEN, ops::<Y_OEN>("Y_OEN")));
    v.push(marked!(T_OEN, ops::<T_OEN>("T_OEN")));
    v.push(marked!(YU_OEN, ops::<YU_OEN>("YU_OEN")));
    v.push(marked!(S_OptEN, ops::<S_OptEN>("S_OptEN")));
    v.push(marked!(L_OptEN, ops::<L_OptEN>("L_OptEN")));
    v.push(marked!(Y_OptEN, ops::<Y_OptEN>("Y_OptEN")));
    v.push(marked!(T_OptEN, ops::<T_OptEN>("T_OptEN")));
    v.push(marked!(YU_OptEN, ops::<YU_OptEN>("YU_OptEN")));
    v.push(marked!(S_Arr, ops::<S_Arr>("S_Arr")));
    v.push(marked!(L_Arr, ops::<L_Arr>("L_Arr")));
    v.push(marked!(Y_Arr, ops::<Y_Arr>("Y_Arr")));
    v.push(marked!(T_Arr, ops::<T_Arr>("T_Arr")));
    v.push(marked!(YU_Arr, ops::<YU_Arr>("YU_Arr")));
    v.push(marked!(S_OArr, ops::<S_OArr>("S_OArr")));
    v.push(marked!(L_OArr, ops::<L_OArr>("L_OArr")));
    v.push(marked!(Y_OArr, ops::<Y_OArr>("Y_OArr")));
    v.push(marked!(T_OArr, ops::<T_OArr>("T_OArr")));
    v.push(marked!(YU_OArr, ops::<YU_OArr>("YU_OArr")));
    v.push(marked!(S_Unit, ops::<S_Unit>("S_Unit")));
    v.push(marked!(L_Unit, ops::<L_Unit>("L_Unit")));
    v.push(marked!(Y_Unit, ops::<Y_Unit>("Y_Unit")));
    v.push(marked!(T_Unit, ops::<T_Unit>("T_Unit")));
    v.push(marked!(YU_Unit, ops::<YU_Unit>("YU_Unit")));
    v.push(marked!(S_OUnit, ops::<S_OUnit>("S_OUnit")));
    v.push(marked!(L_OUnit, ops::<L_OUnit>("L_OUnit")));
    v.push(marked!(Y_OUnit, ops::<Y_OUnit>("Y_OUnit")));
    v.push(marked!(T_OUnit, ops::<T_OUnit>("T_OUnit")));
    v.push(marked!(YU_OUnit, ops::<YU_OUnit>("YU_OUnit")));
    v.push(marked!(S_WithNs, ops::<S_WithNs>("S_WithNs")));
    v.push(marked!(L_WithNs, ops::<L_WithNs>("L_WithNs")));
    v.push(marked!(Y_WithNs, ops::<Y_WithNs>("Y_WithNs")));
    v.push(marked!(T_WithNs, ops::<T_WithNs>("T_WithNs")));
    v.push(marked!(YU_WithNs, ops::<YU_WithNs>("YU_WithNs")));
    v.push(marked!(S_OWithIf, ops::<S_OWithIf>("S_OWithIf")));
    v.push(marked!(L_OWithIf, ops::<L_OWithIf>("L_OWithIf")));
    v.push(marked!(S_OROpt, ops::<S_OROpt>("S_OROpt")));
    v.push(marked!(L_OROpt, ops::<L_OROpt>("L_OROpt")));
    v.push(marked!(S_OStrIf, ops::<S_OStrIf>("S_OStrIf")));
    v.push(marked!(L_OStrIf, ops::<L_OStrIf>("L_OStrIf")));
    v.push(marked!(S_SkipRen, ops::<S_SkipRen>("S_SkipRen")));
    v.push(marked!(L_SkipRen, ops::<L_SkipRen>("L_SkipRen")));
    v.push(marked!(Y_SkipRen, ops::<Y_SkipRen>("Y_SkipRen")));
    v.push(marked!(T_SkipRen, ops::<T_SkipRen>("T_SkipRen")));
    v.push(marked!(YU_SkipRen, ops::<YU_SkipRen>("YU_SkipRen")));
    v.push(marked!(S_SkipOpt, ops::<S_SkipOpt>("S_SkipOpt")));
    v.push(marked!(L_SkipOpt, ops::<L_SkipOpt>("L_SkipOpt")));
}
fn types4(v: &mut Vec<Ops>) {
    v.push(marked!(Y_SkipOpt, ops::<Y_SkipOpt>("Y_SkipOpt")));
    v.push(marked!(T_SkipOpt, ops::<T_SkipOpt>("T_SkipOpt")));
    v.push(marked!(YU_SkipOpt, ops::<YU_SkipOpt>("YU_SkipOpt")));
    v.push(marked!(S_SkipCod, ops::<S_SkipCod>("S_SkipCod")));
    v.push(marked!(L_SkipCod, ops::<L_SkipCod>("L_SkipCod")));
    v.push(marked!(Y_SkipCod, ops::<Y_SkipCod>("Y_SkipCod")));
    v.push(marked!(T_SkipCod, ops::<T_SkipCod>("T_SkipCod")));
    v.push(marked!(YU_SkipCod, ops::<YU_SkipCod>("YU_SkipCod")));
    v.push(marked!(S_SkipIf, ops::<S_SkipIf>("S_SkipIf")));
    v.push(marked!(L_SkipIf, ops::<L_SkipIf>("L_SkipIf")));
    v.push(marked!(Y_SkipIf, ops::<Y_SkipIf>("Y_SkipIf")));
    v.push(marked!(T_SkipIf, ops::<T_SkipIf>("T_SkipIf")));
    v.push(marked!(YU_SkipIf, ops::<YU_SkipIf>("YU_SkipIf")));
    v.push(marked!(S_IfOnly, ops::<S_IfOnly>("S_IfOnly")));
    v.push(marked!(L_IfOnly, ops::<L_IfOnly>("L_IfOnly")));
    v.push(marked!(S_RWith, ops::<S_RWith>("S_RWith")));
    v.push(marked!(L_RWith, ops::<L_RWith>("L_RWith")));
    v.push(marked!(Y_RWith, ops::<Y_RWith>("Y_RWith")));
    v.push(marked!(T_RWith, ops::<T_RWith>("T_RWith")));
    v.push(marked!(YU_RWith, ops::<YU_RWith>("YU_RWith")));
    v.push(marked!(S_OSer, ops::<S_OSer>("S_OSer")));
    v.push(marked!(L_OSer, ops::<L_OSer>("L_OSer")));
    v.push(marked!(Y_OSer, ops::<Y_OSer>("Y_OSer")));
    v.push(marked!(T_OSer, ops::<T_OSer>("T_OSer")));
    v.push(marked!(YU_OSer, ops::<YU_OSer>("YU_OSer")));
    v.push(marked!(S_ODe, ops::<S_ODe>("S_ODe")));
    v.push(marked!(L_ODe, ops::<L_ODe>("L_ODe")));
    v.push(marked!(Y_ODe, ops::<Y_ODe>("Y_ODe")));
    v.push(marked!(T_ODe, ops::<T_ODe>("T_ODe")));
    v.push(marked!(YU_ODe, ops::<YU_ODe>("YU_ODe")));
    v.push(marked!(S_Und, ops::<S_Und>("S_Und")));
    v.push(marked!(L_Und, ops::<L_Und>("L_Und")));
    v.push(marked!(Y_Und, ops::<Y_Und>("Y_Und")));
    v.push(marked!(T_Und, ops::<T_Und>("T_Und")));
    v.push(marked!(YU_Und, ops::<YU_Und>("YU_Und")));
    v.push(marked!(S_OUnd, ops::<S_OUnd>("S_OUnd")));
    v.push(marked!(L_OUnd, ops::<L_OUnd>("L_OUnd")));
    v.push(marked!(Y_OUnd, ops::<Y_OUnd>("Y_OUnd")));
    v.push(marked!(T_OUnd, ops::<T_OUnd>("T_OUnd")));
    v.push(marked!(YU_OUnd, ops::<YU_OUnd>("YU_OUnd")));
    v.push(marked!(S_Map, ops::<S_Map>("S_Map")));
    v.push(marked!(L_Map, ops::<L_Map>("L_Map")));
    v.push(marked!(Y_Map, ops::<Y_Map>("Y_Map")));
    v.push(marked!(T_Map, ops::<T_Map>("T_Map")));
    v.push(marked!(YU_Map, ops::<YU_Map>("YU_Map")));
    v.push(marked!(S_HMap, ops::<S_HMap>("S_HMap")));
    v.push(marked!(L_HMap, ops::<L_HMap>("L_HMap")));
    v.push(marked!(Y_HMap, ops::<Y_HMap>("Y_HMap")));
    v.push(marked!(T_HMap, ops::<T_HMap>("T_HMap")));
    v.push(marked!(YU_HMap, ops::<YU_HMap>("YU_HMap")));
}
fn types5(v: &mut Vec<Ops>) {
    v.push(marked!(S_HSet, ops::<S_HSet>("S_HSet")));
    v.push(marked!(L_HSet, ops::<L_HSet>("L_HSet")));
    v.push(marked!(Y_HSet, ops::<Y_HSet>("Y_HSet")));
    v.push(marked!(T_HSet, ops::<T_HSet>("T_HSet")));
    v.push(marked!(YU_HSet, ops::<YU_HSet>("YU_HSet")));
    v.push(marked!(S_VecNS, ops::<S_VecNS>("S_VecNS")));
    v.push(marked!(L_VecNS, ops::<L_VecNS>("L_VecNS")));
    v.push(marked!(Y_VecNS, ops::<Y_VecNS>("Y_VecNS")));
    v.push(marked!(T_VecNS, ops::<T_VecNS>("T_VecNS")));
    v.push(marked!(YU_VecNS, ops::<YU_VecNS>("YU_VecNS")));
    v.push(marked!(S_u128, ops::<S_u128>("S_u128")));
    v.push(marked!(L_u128, ops::<L_u128>("L_u128")));
    v.push(marked!(Y_u128, ops::<Y_u128>("Y_u128")));
    v.push(marked!(T_u128, ops::<T_u128>("T_u128")));
    v.push(marked!(YU_u128, ops::<YU_u128>("YU_u128")));
    v.push(marked!(S_char, ops::<S_char>("S_char")));
    v.push(marked!(L_char, ops::<L_char>("L_char")));
    v.push(marked!(Y_char, ops::<Y_char>("Y_char")));
    v.push(marked!(T_char, ops::<T_char>("T_char")));
    v.push(marked!(YU_char, ops::<YU_char>("YU_char")));
    v.push(marked!(S_u8_u8, ops::<S_u8_u8>("S_u8_u8")));
    v.push(marked!(S_u8_Str, ops::<S_u8_Str>("S_u8_Str")));
    v.push(marked!(S_u8_Opt, ops::<S_u8_Opt>("S_u8_Opt")));
    v.push(marked!(S_u8_OOpt, ops::<S_u8_OOpt>("S_u8_OOpt")));
    v.push(marked!(S_u8_ONum, ops::<S_u8_ONum>("S_u8_ONum")));
    v.push(marked!(S_u8_OVec, ops::<S_u8_OVec>("S_u8_OVec")));
    v.push(marked!(S_u8_Skip, ops::<S_u8_Skip>("S_u8_Skip")));
    v.push(marked!(S_u8_RText, ops::<S_u8_RText>("S_u8_RText")));
    v.push(marked!(S_u8_RNum, ops::<S_u8_RNum>("S_u8_RNum")));
    v.push(marked!(S_u8_RLong, ops::<S_u8_RLong>("S_u8_RLong")));
    v.push(marked!(S_u8_With, ops::<S_u8_With>("S_u8_With")));
    v.push(marked!(S_u8_OWith, ops::<S_u8_OWith>("S_u8_OWith")));
    v.push(marked!(S_u8_Ser, ops::<S_u8_Ser>("S_u8_Ser")));
    v.push(marked!(S_u8_De, ops::<S_u8_De>("S_u8_De")));
    v.push(marked!(S_u8_Val, ops::<S_u8_Val>("S_u8_Val")));
    v.push(marked!(S_u8_NS, ops::<S_u8_NS>("S_u8_NS")));
    v.push(marked!(S_u8_ONS, ops::<S_u8_ONS>("S_u8_ONS")));
    v.push(marked!(S_u8_EN, ops::<S_u8_EN>("S_u8_EN")));
    v.push(marked!(S_u8_ORNum, ops::<S_u8_ORNum>("S_u8_ORNum")));
    v.push(marked!(S_Str_u8, ops::<S_Str_u8>("S_Str_u8")));
    v.push(marked!(S_Str_Str, ops::<S_Str_Str>("S_Str_Str")));
    v.push(marked!(S_Str_Opt, ops::<S_Str_Opt>("S_Str_Opt")));
    v.push(marked!(S_Str_OOpt, ops::<S_Str_OOpt>("S_Str_OOpt")));
    v.push(marked!(S_Str_ONum, ops::<S_Str_ONum>("S_Str_ONum")));
    v.push(marked!(S_Str_OVec, ops::<S_Str_OVec>("S_Str_OVec")));
    v.push(marked!(S_Str_Skip, ops::<S_Str_Skip>("S_Str_Skip")));
    v.push(marked!(S_Str_RText, ops::<S_Str_RText>("S_Str_RText")));
    v.push(marked!(S_Str_RNum, ops::<S_Str_RNum>("S_Str_RNum")));
    v.push(marked!(S_Str_RLong, ops::<S_Str_RLong>("S_Str_RLong")));
    v.push(marked!(S_Str_With, ops::<S_Str_With>("S_Str_With")));
}
fn types6(v: &mut Vec<Ops>) {
    v.push(marked!(S_Str_OWith, ops::<S_Str_OWith>("S_Str_OWith")));
    v.push(marked!(S_Str_Ser, ops::<S_Str_Ser>("S_Str_Ser")));
    v.push(marked!(S_Str_De, ops::<S_Str_De>("S_Str_De")));
    v.push(marked!(S_Str_Val, ops::<S_Str_Val>("S_Str_Val")));
    v.push(marked!(S_Str_NS, ops::<S_Str_NS>("S_Str_NS")));
    v.push(marked!(S_Str_ONS, ops::<S_Str_ONS>("S_Str_ONS")));
    v.push(marked!(S_Str_EN, ops::<S_Str_EN>("S_Str_EN")));
    v.push(marked!(S_Str_ORNum, ops::<S_Str_ORNum>("S_Str_ORNum")));
    v.push(marked!(S_Opt_u8, ops::<S_Opt_u8>("S_Opt_u8")));
    v.push(marked!(S_Opt_Str, ops::<S_Opt_Str>("S_Opt_Str")));
    v.push(marked!(S_Opt_Opt, ops::<S_Opt_Opt>("S_Opt_Opt")));
    v.push(marked!(S_Opt_OOpt, ops::<S_Opt_OOpt>("S_Opt_OOpt")));
    v.push(marked!(S_Opt_ONum, ops::<S_Opt_ONum>("S_Opt_ONum")));
    v.push(marked!(S_Opt_OVec, ops::<S_Opt_OVec>("S_Opt_OVec")));
    v.push(marked!(S_Opt_Skip, ops::<S_Opt_Skip>("S_Opt_Skip")));
    v.push(marked!(S_Opt_RText, ops::<S_Opt_RText>("S_Opt_RText")));
    v.push(marked!(S_Opt_RNum, ops::<S_Opt_RNum>("S_Opt_RNum")));
    v.push(marked!(S_Opt_RLong, ops::<S_Opt_RLong>("S_Opt_RLong")));
    v.push(marked!(S_Opt_With, ops::<S_Opt_With>("S_Opt_With")));
    v.push(marked!(S_Opt_OWith, ops::<S_Opt_OWith>("S_Opt_OWith")));
    v.push(marked!(S_Opt_Ser, ops::<S_Opt_Ser>("S_Opt_Ser")));
    v.push(marked!(S_Opt_De, ops::<S_Opt_De>("S_Opt_De")));
    v.push(marked!(S_Opt_Val, ops::<S_Opt_Val>("S_Opt_Val")));
    v.push(marked!(S_Opt_NS, ops::<S_Opt_NS>("S_Opt_NS")));
    v.push(marked!(S_Opt_ONS, ops::<S_Opt_ONS>("S_Opt_ONS")));
    v.push(marked!(S_Opt_EN, ops::<S_Opt_EN>("S_Opt_EN")));
    v.push(marked!(S_Opt_ORNum, ops::<S_Opt_ORNum>("S_Opt_ORNum")));
    v.push(marked!(S_OOpt_u8, ops::<S_OOpt_u8>("S_OOpt_u8")));
    v.push(marked!(S_OOpt_Str, ops::<S_OOpt_Str>("S_OOpt_Str")));
    v.push(marked!(S_OOpt_Opt, ops::<S_OOpt_Opt>("S_OOpt_Opt")));
    v.push(marked!(S_OOpt_OOpt, ops::<S_OOpt_OOpt>("S_OOpt_OOpt")));
    v.push(marked!(S_OOpt_ONum, ops::<S_OOpt_ONum>("S_OOpt_ONum")));
    v.push(marked!(S_OOpt_OVec, ops::<S_OOpt_OVec>("S_OOpt_OVec")));
    v.push(marked!(S_OOpt_Skip, ops::<S_OOpt_Skip>("S_OOpt_Skip")));
    v.push(marked!(S_OOpt_RText, ops::<S_OOpt_RText>("S_OOpt_RText")));
    v.push(marked!(S_OOpt_RNum, ops::<S_OOpt_RNum>("S_OOpt_RNum")));
    v.push(marked!(S_OOpt_RLong, ops::<S_OOpt_RLong>("S_OOpt_RLong")));
    v.push(marked!(S_OOpt_With, ops::<S_OOpt_With>("S_OOpt_With")));
    v.push(marked!(S_OOpt_OWith, ops::<S_OOpt_OWith>("S_OOpt_OWith")));
    v.push(marked!(S_OOpt_Ser, ops::<S_OOpt_Ser>("S_OOpt_Ser")));
    v.push(marked!(S_OOpt_De, ops::<S_OOpt_De>("S_OOpt_De")));
    v.push(marked!(S_OOpt_Val, ops::<S_OOpt_Val>("S_OOpt_Val")));
    v.push(marked!(S_OOpt_NS, ops::<S_OOpt_NS>("S_OOpt_NS")));
    v.push(marked!(S_OOpt_ONS, ops::<S_OOpt_ONS>("S_OOpt_ONS")));
    v.push(marked!(S_OOpt_EN, ops::<S_OOpt_EN>("S_OOpt_EN")));
    v.push(marked!(S_OOpt_ORNum, ops::<S_OOpt_ORNum>("S_OOpt_ORNum")));
    v.push(marked!(S_ONum_u8, ops::<S_ONum_u8>("S_ONum_u8")));
    v.push(marked!(S_ONum_Str, ops::<S_ONum_Str>("S_ONum_Str")));
    v.push(marked!(S_ONum_Opt, ops::<S_ONum_Opt>("S_ONum_Opt")));
    v.push(marked!(S_ONum_OOpt, ops::<S_ONum_OOpt>("S_ONum_OOpt")));
}
fn types7(v: &mut Vec<Ops>) {
    v.push(marked!(S_ONum_ONum, ops::<S_ONum_ONum>("S_ONum_ONum")));
    v.push(marked!(S_ONum_OVec, ops::<S_ONum_OVec>("S_ONum_OVec")));
    v.push(marked!(S_ONum_Skip, ops::<S_ONum_Skip>("S_ONum_Skip")));
    v.push(marked!(S_ONum_RText, ops::<S_ONum_RText>("S_ONum_RText")));
    v.push(marked!(S_ONum_RNum, ops::<S_ONum_RNum>("S_ONum_RNum")));
    v.push(marked!(S_ONum_RLong, ops::<S_ONum_RLong>("S_ONum_RLong")));
    v.push(marked!(S_ONum_With, ops::<S_ONum_With>("S_ONum_With")));
    v.push(marked!(S_ONum_OWith, ops::<S_ONum_OWith>("S_ONum_OWith")));
    v.push(marked!(S_ONum_Ser, ops::<S_ONum_Ser>("S_ONum_Ser")));
    v.push(marked!(S_ONum_De, ops::<S_ONum_De>("S_ONum_De")));
    v.push(marked!(S_ONum_Val, ops::<S_ONum_Val>("S_ONum_Val")));
    v.push(marked!(S_ONum_NS, ops::<S_ONum_NS>("S_ONum_NS")));
    v.push(marked!(S_ONum_ONS, ops::<S_ONum_ONS>("S_ONum_ONS")));
    v.push(marked!(S_ONum_EN, ops::<S_ONum_EN>("S_ONum_EN")));
    v.push(marked!(S_ONum_ORNum, ops::<S_ONum_ORNum>("S_ONum_ORNum")));
    v.push(marked!(S_OVec_u8, ops::<S_OVec_u8>("S_OVec_u8")));
    v.push(marked!(S_OVec_Str, ops::<S_OVec_Str>("S_OVec_Str")));
    v.push(marked!(S_OVec_Opt, ops::<S_OVec_Opt>("S_OVec_Opt")));
    v.push(marked!(S_OVec_OOpt, ops::<S_OVec_OOpt>("S_OVec_OOpt")));
    v.push(marked!(S_OVec_ONum, ops::<S_OVec_ONum>("S_OVec_ONum")));
    v.push(marked!(S_OVec_OVec, ops::<S_OVec_OVec>("S_OVec_OVec")));
    v.push(marked!(S_OVec_Skip, ops::<S_OVec_Skip>("S_OVec_Skip")));
    v.push(marked!(S_OVec_RText, ops::<S_OVec_RText>("S_OVec_RText")));
    v.push(marked!(S_OVec_RNum, ops::<S_OVec_RNum>("S_OVec_RNum")));
    v.push(marked!(S_OVec_RLong, ops::<S_OVec_RLong>("S_OVec_RLong")));
    v.push(marked!(S_OVec_With, ops::<S_OVec_With>("S_OVec_With")));
    v.push(marked!(S_OVec_OWith, ops::<S_OVec_OWith>("S_OVec_OWith")));
    v.push(marked!(S_OVec_Ser, ops::<S_OVec_Ser>("S_OVec_Ser")));
    v.push(marked!(S_OVec_De, ops::<S_OVec_De>("S_OVec_De")));
    v.push(marked!(S_OVec_Val, ops::<S_OVec_Val>("S_OVec_Val")));
    v.push(marked!(S_OVec_NS, ops::<S_OVec_NS>("S_OVec_NS")));
    v.push(marked!(S_OVec_ONS, ops::<S_OVec_ONS>("S_OVec_ONS")));
    v.push(marked!(S_OVec_EN, ops::<S_OVec_EN>("S_OVec_EN")));
    v.push(marked!(S_OVec_ORNum, ops::<S_OVec_ORNum>("S_OVec_ORNum")));
    v.push(marked!(S_Skip_u8, ops::<S_Skip_u8>("S_Skip_u8")));
    v.push(marked!(S_Skip_Str, ops::<S_Skip_Str>("S_Skip_Str")));
    v.push(marked!(S_Skip_Opt, ops::<S_Skip_Opt>("S_Skip_Opt")));
    v.push(marked!(S_Skip_OOpt, ops::<S_Skip_OOpt>("S_Skip_OOpt")));
    v.push(marked!(S_Skip_ONum, ops::<S_Skip_ONum>("S_Skip_ONum")));
    v.push(marked!(S_Skip_OVec, ops::<S_Skip_OVec>("S_Skip_OVec")));
    v.push(marked!(S_Skip_Skip, ops::<S_Skip_Skip>("S_Skip_Skip")));
    v.push(marked!(S_Skip_RText, ops::<S_Skip_RText>("S_Skip_RText")));
    v.push(marked!(S_Skip_RNum, ops::<S_Skip_RNum>("S_Skip_RNum")));
    v.push(marked!(S_Skip_RLong, ops::<S_Skip_RLong>("S_Skip_RLong")));
    v.push(marked!(S_Skip_With, ops::<S_Skip_With>("S_Skip_With")));
    v.push(marked!(S_Skip_OWith, ops::<S_Skip_OWith>("S_Skip_OWith")));
    v.push(marked!(S_Skip_Ser, ops::<S_Skip_Ser>("S_Skip_Ser")));
    v.push(marked!(S_Skip_De, ops::<S_Skip_De>("S_Skip_De")));
    v.push(marked!(S_Skip_Val, ops::<S_Skip_Val>("S_Skip_Val")));
    v.push(marked!(S_Skip_NS, ops::<S_Skip_NS>("S_Skip_NS")));
}
fn types8(v: &mut Vec<Ops>) {
    v.push(marked!(S_Skip_ONS, ops::<S_Skip_ONS>("S_Skip_ONS")));
    v.push(marked!(S_Skip_EN, ops::<S_Skip_EN>("S_Skip_EN")));
    v.push(marked!(S_Skip_ORNum, ops::<S_Skip_ORNum>("S_Skip_ORNum")));
    v.push(marked!(S_RText_u8, ops::<S_RText_u8>("S_RText_u8")));
    v.push(marked!(S_RText_Str, ops::<S_RText_Str>("S_RText_Str")));
    v.push(marked!(S_RText_Opt, ops::<S_RText_Opt>("S_RText_Opt")));
    v.push(marked!(S_RText_OOpt, ops::<S_RText_OOpt>("S_RText_OOpt")));
    v.push(marked!(S_RText_ONum, ops::<S_RText_ONum>("S_RText_ONum")));
    v.push(marked!(S_RText_OVec, ops::<S_RText_OVec>("S_RText_OVec")));
    v.push(marked!(S_RText_Skip, ops::<S_RText_Skip>("S_RText_Skip")));
    v.push(marked!(S_RText_RText, ops::<S_RText_RText>("S_RText_RText")));
    v.push(marked!(S_RText_RNum, ops::<S_RText_RNum>("S_RText_RNum")));
    v.push(marked!(S_RText_RLong, ops::<S_RText_RLong>("S_RText_RLong")));
    v.push(marked!(S_RText_With, ops::<S_RText_With>("S_RText_With")));
    v.push(marked!(S_RText_OWith, ops::<S_RText_OWith>("S_RText_OWith")));
    v.push(marked!(S_RText_Ser, ops::<S_RText_Ser>("S_RText_Ser")));
    v.push(marked!(S_RText_De, ops::<S_RText_De>("S_RText_De")));
    v.push(marked!(S_RText_Val, ops::<S_RText_Val>("S_RText_Val")));
    v.push(marked!(S_RText_NS, ops::<S_RText_NS>("S_RText_NS")));
    v.push(marked!(S_RText_ONS, ops::<S_RText_ONS>("S_RText_ONS")));
    v.push(marked!(S_RText_EN, ops::<S_RText_EN>("S_RText_EN")));
    v.push(marked!(S_RText_ORNum, ops::<S_RText_ORNum>("S_RText_ORNum")));
    v.push(marked!(S_RNum_u8, ops::<S_RNum_u8>("S_RNum_u8")));
    v.push(marked!(S_RNum_Str, ops::<S_RNum_Str>("S_RNum_Str")));
    v.push(marked!(S_RNum_Opt, ops::<S_RNum_Opt>("S_RNum_Opt")));
    v.push(marked!(S_RNum_OOpt, ops::<S_RNum_OOpt>("S_RNum_OOpt")));
    v.push(marked!(S_RNum_ONum, ops::<S_RNum_ONum>("S_RNum_ONum")));
    v.push(marked!(S_RNum_OVec, ops::<S_RNum_OVec>("S_RNum_OVec")));
    v.push(marked!(S_RNum_Skip, ops::<S_RNum_Skip>("S_RNum_Skip")));
    v.push(marked!(S_RNum_RText, ops::<S_RNum_RText>("S_RNum_RText")));
    v.push(marked!(S_RNum_RNum, ops::<S_RNum_RNum>("S_RNum_RNum")));
    v.push(marked!(S_RNum_RLong, ops::<S_RNum_RLong>("S_RNum_RLong")));
    v.push(marked!(S_RNum_With, ops::<S_RNum_With>("S_RNum_With")));
    v.push(marked!(S_RNum_OWith, ops::<S_RNum_OWith>("S_RNum_OWith")));
    v.push(marked!(S_RNum_Ser, ops::<S_RNum_Ser>("S_RNum_Ser")));
    v.push(marked!(S_RNum_De, ops::<S_RNum_De>("S_RNum_De")));
    v.push(marked!(S_RNum_Val, ops::<S_RNum_Val>("S_RNum_Val")));
    v.push(marked!(S_RNum_NS, ops::<S_RNum_NS>("S_RNum_NS")));
    v.push(marked!(S_RNum_ONS, ops::<S_RNum_ONS>("S_RNum_ONS")));
    v.push(marked!(S_RNum_EN, ops::<S_RNum_EN>("S_RNum_EN")));
    v.push(marked!(S_RNum_ORNum, ops::<S_RNum_ORNum>("S_RNum_ORNum")));
    v.push(marked!(S_RLong_u8, ops::<S_RLong_u8>("S_RLong_u8")));
    v.push(marked!(S_RLong_Str, ops::<S_RLong_Str>("S_RLong_Str")));
    v.push(marked!(S_RLong_Opt, ops::<S_RLong_Opt>("S_RLong_Opt")));
    v.push(marked!(S_RLong_OOpt, ops::<S_RLong_OOpt>("S_RLong_OOpt")));
    v.push(marked!(S_RLong_ONum, ops::<S_RLong_ONum>("S_RLong_ONum")));
    v.push(marked!(S_RLong_OVec, ops::<S_RLong_OVec>("S_RLong_OVec")));
    v.push(marked!(S_RLong_Skip, ops::<S_RLong_Skip>("S_RLong_Skip")));
    v.push(marked!(S_RLong_RText, ops::<S_RLong_RText>("S_RLong_RText")));
    v.push(marked!(S_RLong_RNum, ops::<S_RLong_RNum>("S_RLong_RNum")));
}
fn types9(v: &mut Vec<Ops>) {
    v.push(marked!(S_RLong_RLong, ops::<S_RLong_RLong>("S_RLong_RLong")));
    v.push(marked!(S_RLong_With, ops::<S_RLong_With>("S_RLong_With")));
    v.push(marked!(S_RLong_OWith, ops::<S_RLong_OWith>("S_RLong_OWith")));
    v.push(marked!(S_RLong_Ser, ops::<S_RLong_Ser>("S_RLong_Ser")));
    v.push(marked!(S_RLong_De, ops::<S_RLong_De>("S_RLong_De")));
    v.push(marked!(S_RLong_Val, ops::<S_RLong_Val>("S_RLong_Val")));
    v.push(marked!(S_RLong_NS, ops::<S_RLong_NS>("S_RLong_NS")));
    v.push(marked!(S_RLong_ONS, ops::<S_RLong_ONS>("S_RLong_ONS")));
    v.push(marked!(S_RLong_EN, ops::<S_RLong_EN>("S_RLong_EN")));
    v.push(marked!(S_RLong_ORNum, ops::<S_RLong_ORNum>("S_RLong_ORNum")));
    v.push(marked!(S_With_u8, ops::<S_With_u8>("S_With_u8")));
    v.push(marked!(S_With_Str, ops::<S_With_Str>("S_With_Str")));
    v.push(marked!(S_With_Opt, ops::<S_With_Opt>("S_With_Opt")));
    v.push(marked!(S_With_OOpt, ops::<S_With_OOpt>("S_With_OOpt")));
    v.push(marked!(S_With_ONum, ops::<S_With_ONum>("S_With_ONum")));
    v.push(marked!(S_With_OVec, ops::<S_With_OVec>("S_With_OVec")));
    v.push(marked!(S_With_Skip, ops::<S_With_Skip>("S_With_Skip")));
    v.push(marked!(S_With_RText, ops::<S_With_RText>("S_With_RText")));
    v.push(marked!(S_With_RNum, ops::<S_With_RNum>("S_With_RNum")));
    v.push(marked!(S_With_RLong, ops::<S_With_RLong>("S_With_RLong")));
    v.push(marked!(S_With_With, ops::<S_With_With>("S_With_With")));
    v.push(marked!(S_With_OWith, ops::<S_With_OWith>("S_With_OWith")));
    v.push(marked!(S_With_Ser, ops::<S_With_Ser>("S_With_Ser")));
    v.push(marked!(S_With_De, ops::<S_With_De>("S_With_De")));
    v.push(marked!(S_With_Val, ops::<S_With_Val>("S_With_Val")));
    v.push(marked!(S_With_NS, ops::<S_With_NS>("S_With_NS")));
    v.push(marked!(S_With_ONS, ops::<S_With_ONS>("S_With_ONS")));
    v.push(marked!(S_With_EN, ops::<S_With_EN>("S_With_EN")));
    v.push(marked!(S_With_ORNum, ops::<S_With_ORNum>("S_With_ORNum")));
    v.push(marked!(S_OWith_u8, ops::<S_OWith_u8>("S_OWith_u8")));
    v.push(marked!(S_OWith_Str, ops::<S_OWith_Str>("S_OWith_Str")));
    v.push(marked!(S_OWith_Opt, ops::<S_OWith_Opt>("S_OWith_Opt")));
    v.push(marked!(S_OWith_OOpt, ops::<S_OWith_OOpt>("S_OWith_OOpt")));
    v.push(marked!(S_OWith_ONum, ops::<S_OWith_ONum>("S_OWith_ONum")));
    v.push(marked!(S_OWith_OVec, ops::<S_OWith_OVec>("S_OWith_OVec")));
    v.push(marked!(S_OWith_Skip, ops::<S_OWith_Skip>("S_OWith_Skip")));
    v.push(marked!(S_OWith_RText, ops::<S_OWith_RText>("S_OWith_RText")));
    v.push(marked!(S_OWith_RNum, ops::<S_OWith_RNum>("S_OWith_RNum")));
    v.push(marked!(S_OWith_RLong, ops::<S_OWith_RLong>("S_OWith_RLong")));
    v.push(marked!(S_OWith_With, ops::<S_OWith_With>("S_OWith_With")));
    v.push(marked!(S_OWith_OWith, ops::<S_OWith_OWith>("S_OWith_OWith")));
    v.push(marked!(S_OWith_Ser, ops::<S_OWith_Ser>("S_OWith_Ser")));
    v.push(marked!(S_OWith_De, ops::<S_OWith_De>("S_OWith_De")));
    v.push(marked!(S_OWith_Val, ops::<S_OWith_Val>("S_OWith_Val")));
    v.push(marked!(S_OWith_NS, ops::<S_OWith_NS>("S_OWith_NS")));
    v.push(marked!(S_OWith_ONS, ops::<S_OWith_ONS>("S_OWith_ONS")));
    v.push(marked!(S_OWith_EN, ops::<S_OWith_EN>("S_OWith_EN")));
    v.push(marked!(S_OWith_ORNum, ops::<S_OWith_ORNum>("S_OWith_ORNum")));
    v.push(marked!(S_Ser_u8, ops::<S_Ser_u8>("S_Ser_u8")));
    v.push(marked!(S_Ser_Str, ops::<S_Ser_Str>("S_Ser_Str")));
}
fn types10(v: &mut Vec<Ops>) {
    v.push(marked!(S_Ser_Opt, ops::<S_Ser_Opt>("S_Ser_Opt")));
    v.push(marked!(S_Ser_OOpt, ops::<S_Ser_OOpt>("S_Ser_OOpt")));
    v.push(marked!(S_Ser_ONum, ops::<S_Ser_ONum>("S_Ser_ONum")));
    v.push(marked!(S_Ser_OVec, ops::<S_Ser_OVec>("S_Ser_OVec")));
    v.push(marked!(S_Ser_Skip, ops::<S_Ser_Skip>("S_Ser_Skip")));
    v.push(marked!(S_Ser_RText, ops::<S_Ser_RText>("S_Ser_RText")));
    v.push(marked!(S_Ser_RNum, ops::<S_Ser_RNum>("S_Ser_RNum")));
    v.push(marked!(S_Ser_RLong, ops::<S_Ser_RLong>("S_Ser_RLong")));
    v.push(marked!(S_Ser_With, ops::<S_Ser_With>("S_Ser_With")));
    v.push(marked!(S_Ser_OWith, ops::<S_Ser_OWith>("S_Ser_OWith")));
    v.push(marked!(S_Ser_Ser, ops::<S_Ser_Ser>("S_Ser_Ser")));
    v.push(marked!(S_Ser_De, ops::<S_Ser_De>("S_Ser_De")));
    v.push(marked!(S_Ser_Val, ops::<S_Ser_Val>("S_Ser_Val")));
    v.push(marked!(S_Ser_NS, ops::<S_Ser_NS>("S_Ser_NS")));
    v.push(marked!(S_Ser_ONS, ops::<S_Ser_ONS>("S_Ser_ONS")));
    v.push(marked!(S_Ser_EN, ops::<S_Ser_EN>("S_Ser_EN")));
    v.push(marked!(S_Ser_ORNum, ops::<S_Ser_ORNum>("S_Ser_ORNum")));
    v.push(marked!(S_De_u8, ops::<S_De_u8>("S_De_u8")));
    v.push(marked!(S_De_Str, ops::<S_De_Str>("S_De_Str")));
    v.push(marked!(S_De_Opt, ops::<S_De_Opt>("S_De_Opt")));
    v.push(marked!(S_De_OOpt, ops::<S_De_OOpt>("S_De_OOpt")));
    v.push(marked!(S_De_ONum, ops::<S_De_ONum>("S_De_ONum")));
    v.push(marked!(S_De_OVec, ops::<S_De_OVec>("S_De_OVec")));
    v.push(marked!(S_De_Skip, ops::<S_De_Skip>("S_De_Skip")));
    v.push(marked!(S_De_RText, ops::<S_De_RText>("S_De_RText")));
    v.push(marked!(S_De_RNum, ops::<S_De_RNum>("S_De_RNum")));
    v.push(marked!(S_De_RLong, ops::<S_De_RLong>("S_De_RLong")));
    v.push(marked!(S_De_With, ops::<S_De_With>("S_De_With")));
    v.push(marked!(S_De_OWith, ops::<S_De_OWith>("S_De_OWith")));
    v.push(marked!(S_De_Ser, ops::<S_De_Ser>("S_De_Ser")));
    v.push(marked!(S_De_De, ops::<S_De_De>("S_De_De")));
    v.push(marked!(S_De_Val, ops::<S_De_Val>("S_De_Val")));
    v.push(marked!(S_De_NS, ops::<S_De_NS>("S_De_NS")));
    v.push(marked!(S_De_ONS, ops::<S_De_ONS>("S_De_ONS")));
    v.push(marked!(S_De_EN, ops::<S_De_EN>("S_De_EN")));
    v.push(marked!(S_De_ORNum, ops::<S_De_ORNum>("S_De_ORNum")));
    v.push(marked!(S_Val_u8, ops::<S_Val_u8>("S_Val_u8")));
    v.push(marked!(S_Val_Str, ops::<S_Val_Str>("S_Val_Str")));
    v.push(marked!(S_Val_Opt, ops::<S_Val_Opt>("S_Val_Opt")));
    v.push(marked!(S_Val_OOpt, ops::<S_Val_OOpt>("S_Val_OOpt")));
    v.push(marked!(S_Val_ONum, ops::<S_Val_ONum>("S_Val_ONum")));
    v.push(marked!(S_Val_OVec, ops::<S_Val_OVec>("S_Val_OVec")));
    v.push(marked!(S_Val_Skip, ops::<S_Val_Skip>("S_Val_Skip")));
    v.push(marked!(S_Val_RText, ops::<S_Val_RText>("S_Val_RText")));
    v.push(marked!(S_Val_RNum, ops::<S_Val_RNum>("S_Val_RNum")));
    v.push(marked!(S_Val_RLong, ops::<S_Val_RLong>("S_Val_RLong")));
    v.push(marked!(S_Val_With, ops::<S_Val_With>("S_Val_With")));
    v.push(marked!(S_Val_OWith, ops::<S_Val_OWith>("S_Val_OWith")));
    v.push(marked!(S_Val_Ser, ops::<S_Val_Ser>("S_Val_Ser")));
    v.push(marked!(S_Val_De, ops::<S_Val_De>("S_Val_De")));
}
fn types11(v: &mut Vec<Ops>) {
    v.push(marked!(S_Val_Val, ops::<S_Val_Val>("S_Val_Val")));
    v.push(marked!(S_Val_NS, ops::<S_Val_NS>("S_Val_NS")));
    v.push(marked!(S_Val_ONS, ops::<S_Val_ONS>("S_Val_ONS")));
    v.push(marked!(S_Val_EN, ops::<S_Val_EN>("S_Val_EN")));
    v.push(marked!(S_Val_ORNum, ops::<S_Val_ORNum>("S_Val_ORNum")));
    v.push(marked!(S_NS_u8, ops::<S_NS_u8>("S_NS_u8")));
    v.push(marked!(S_NS_Str, ops::<S_NS_Str>("S_NS_Str")));
    v.push(marked!(S_NS_Opt, ops::<S_NS_Opt>("S_NS_Opt")));
    v.push(marked!(S_NS_OOpt, ops::<S_NS_OOpt>("S_NS_OOpt")));
    v.push(marked!(S_NS_ONum, ops::<S_NS_ONum>("S_NS_ONum")));
    v.push(marked!(S_NS_OVec, ops::<S_NS_OVec>("S_NS_OVec")));
    v.push(marked!(S_NS_Skip, ops::<S_NS_Skip>("S_NS_Skip")));
    v.push(marked!(S_NS_RText, ops::<S_NS_RText>("S_NS_RText")));
    v.push(marked!(S_NS_RNum, ops::<S_NS_RNum>("S_NS_RNum")));
    v.push(marked!(S_NS_RLong, ops::<S_NS_RLong>("S_NS_RLong")));
    v.push(marked!(S_NS_With, ops::<S_NS_With>("S_NS_With")));
    v.push(marked!(S_NS_OWith, ops::<S_NS_OWith>("S_NS_OWith")));
    v.push(marked!(S_NS_Ser, ops::<S_NS_Ser>("S_NS_Ser")));
    v.push(marked!(S_NS_De, ops::<S_NS_De>("S_NS_De")));
    v.push(marked!(S_NS_Val, ops::<S_NS_Val>("S_NS_Val")));
    v.push(marked!(S_NS_NS, ops::<S_NS_NS>("S_NS_NS")));
    v.push(marked!(S_NS_ONS, ops::<S_NS_ONS>("S_NS_ONS")));
    v.push(marked!(S_NS_EN, ops::<S_NS_EN>("S_NS_EN")));
    v.push(marked!(S_NS_ORNum, ops::<S_NS_ORNum>("S_NS_ORNum")));
    v.push(marked!(S_ONS_u8, ops::<S_ONS_u8>("S_ONS_u8")));
    v.push(marked!(S_ONS_Str, ops::<S_ONS_Str>("S_ONS_Str")));
    v.push(marked!(S_ONS_Opt, ops::<S_ONS_Opt>("S_ONS_Opt")));
    v.push(marked!(S_ONS_OOpt, ops::<S_ONS_OOpt>("S_ONS_OOpt")));
    v.push(marked!(S_ONS_ONum, ops::<S_ONS_ONum>("S_ONS_ONum")));
    v.push(marked!(S_ONS_OVec, ops::<S_ONS_OVec>("S_ONS_OVec")));
    v.push(marked!(S_ONS_Skip, ops::<S_ONS_Skip>("S_ONS_Skip")));
    v.push(marked!(S_ONS_RText, ops::<S_ONS_RText>("S_ONS_RText")));
    v.push(marked!(S_ONS_RNum, ops::<S_ONS_RNum>("S_ONS_RNum")));
    v.push(marked!(S_ONS_RLong, ops::<S_ONS_RLong>("S_ONS_RLong")));
    v.push(marked!(S_ONS_With, ops::<S_ONS_With>("S_ONS_With")));
    v.push(marked!(S_ONS_OWith, ops::<S_ONS_OWith>("S_ONS_OWith")));
    v.push(marked!(S_ONS_Ser, ops::<S_ONS_Ser>("S_ONS_Ser")));
    v.push(marked!(S_ONS_De, ops::<S_ONS_De>("S_ONS_De")));
    v.push(marked!(S_ONS_Val, ops::<S_ONS_Val>("S_ONS_Val")));
    v.push(marked!(S_ONS_NS, ops::<S_ONS_NS>("S_ONS_NS")));
    v.push(marked!(S_ONS_ONS, ops::<S_ONS_ONS>("S_ONS_ONS")));
    v.push(marked!(S_ONS_EN, ops::<S_ONS_EN>("S_ONS_EN")));
    v.push(marked!(S_ONS_ORNum, ops::<S_ONS_ORNum>("S_ONS_ORNum")));
    v.push(marked!(S_EN_u8, ops::<S_EN_u8>("S_EN_u8")));
    v.push(marked!(S_EN_Str, ops::<S_EN_Str>("S_EN_Str")));
    v.push(marked!(S_EN_Opt, ops::<S_EN_Opt>("S_EN_Opt")));
    v.push(marked!(S_EN_OOpt, ops::<S_EN_OOpt>("S_EN_OOpt")));
    v.push(marked!(S_EN_ONum, ops::<S_EN_ONum>("S_EN_ONum")));
    v.push(marked!(S_EN_OVec, ops::<S_EN_OVec>("S_EN_OVec")));
    v.push(marked!(S_EN_Skip, ops::<S_EN_Skip>("S_EN_Skip")));
}
fn types12(v: &mut Vec<Ops>) {
    v.push(marked!(S_EN_RText, ops::<S_EN_RText>("S_EN_RText")));
    v.push(marked!(S_EN_RNum, ops::<S_EN_RNum>("S_EN_RNum")));
    v.push(marked!(S_EN_RLong, ops::<S_EN_RLong>("S_EN_RLong")));
    v.push(marked!(S_EN_With, ops::<S_EN_With>("S_EN_With")));
    v.push(marked!(S_EN_OWith, ops::<S_EN_OWith>("S_EN_OWith")));
    v.push(marked!(S_EN_Ser, ops::<S_EN_Ser>("S_EN_Ser")));
    v.push(marked!(S_EN_De, ops::<S_EN_De>("S_EN_De")));
    v.push(marked!(S_EN_Val, ops::<S_EN_Val>("S_EN_Val")));
    v.push(marked!(S_EN_NS, ops::<S_EN_NS>("S_EN_NS")));
    v.push(marked!(S_EN_ONS, ops::<S_EN_ONS>("S_EN_ONS")));
    v.push(marked!(S_EN_EN, ops::<S_EN_EN>("S_EN_EN")));
    v.push(marked!(S_EN_ORNum, ops::<S_EN_ORNum>("S_EN_ORNum")));
    v.push(marked!(S_ORNum_u8, ops::<S_ORNum_u8>("S_ORNum_u8")));
    v.push(marked!(S_ORNum_Str, ops::<S_ORNum_Str>("S_ORNum_Str")));
    v.push(marked!(S_ORNum_Opt, ops::<S_ORNum_Opt>("S_ORNum_Opt")));
    v.push(marked!(S_ORNum_OOpt, ops::<S_ORNum_OOpt>("S_ORNum_OOpt")));
    v.push(marked!(S_ORNum_ONum, ops::<S_ORNum_ONum>("S_ORNum_ONum")));
    v.push(marked!(S_ORNum_OVec, ops::<S_ORNum_OVec>("S_ORNum_OVec")));
    v.push(marked!(S_ORNum_Skip, ops::<S_ORNum_Skip>("S_ORNum_Skip")));
    v.push(marked!(S_ORNum_RText, ops::<S_ORNum_RText>("S_ORNum_RText")));
    v.push(marked!(S_ORNum_RNum, ops::<S_ORNum_RNum>("S_ORNum_RNum")));
    v.push(marked!(S_ORNum_RLong, ops::<S_ORNum_RLong>("S_ORNum_RLong")));
    v.push(marked!(S_ORNum_With, ops::<S_ORNum_With>("S_ORNum_With")));
    v.push(marked!(S_ORNum_OWith, ops::<S_ORNum_OWith>("S_ORNum_OWith")));
    v.push(marked!(S_ORNum_Ser, ops::<S_ORNum_Ser>("S_ORNum_Ser")));
    v.push(marked!(S_ORNum_De, ops::<S_ORNum_De>("S_ORNum_De")));
    v.push(marked!(S_ORNum_Val, ops::<S_ORNum_Val>("S_ORNum_Val")));
    v.push(marked!(S_ORNum_NS, ops::<S_ORNum_NS>("S_ORNum_NS")));
    v.push(marked!(S_ORNum_ONS, ops::<S_ORNum_ONS>("S_ORNum_ONS")));
    v.push(marked!(S_ORNum_EN, ops::<S_ORNum_EN>("S_ORNum_EN")));
    v.push(marked!(S_ORNum_ORNum, ops::<S_ORNum_ORNum>("S_ORNum_ORNum")));
    v.push(marked!(L_u8_u8, ops::<L_u8_u8>("L_u8_u8")));
    v.push(marked!(Y_u8_u8, ops::<Y_u8_u8>("Y_u8_u8")));
    v.push(marked!(T_u8_u8, ops::<T_u8_u8>("T_u8_u8")));
    v.push(marked!(L_u8_OOpt, ops::<L_u8_OOpt>("L_u8_OOpt")));
    v.push(marked!(Y_u8_OOpt, ops::<Y_u8_OOpt>("Y_u8_OOpt")));
    v.push(marked!(T_u8_OOpt, ops::<T_u8_OOpt>("T_u8_OOpt")));
    v.push(marked!(L_u8_Skip, ops::<L_u8_Skip>("L_u8_Skip")));
    v.push(marked!(Y_u8_Skip, ops::<Y_u8_Skip>("Y_u8_Skip")));
    v.push(marked!(T_u8_Skip, ops::<T_u8_Skip>("T_u8_Skip")));
    v.push(marked!(L_u8_RLong, ops::<L_u8_RLong>("L_u8_RLong")));
    v.push(marked!(Y_u8_RLong, ops::<Y_u8_RLong>("Y_u8_RLong")));
    v.push(marked!(T_u8_RLong, ops::<T_u8_RLong>("T_u8_RLong")));
    v.push(marked!(L_u8_Ser, ops::<L_u8_Ser>("L_u8_Ser")));
    v.push(marked!(Y_u8_Ser, ops::<Y_u8_Ser>("Y_u8_Ser")));
    v.push(marked!(T_u8_Ser, ops::<T_u8_Ser>("T_u8_Ser")));
    v.push(marked!(L_u8_NS, ops::<L_u8_NS>("L_u8_NS")));
    v.push(marked!(Y_u8_NS, ops::<Y_u8_NS>("Y_u8_NS")));
    v.push(marked!(T_u8_NS, ops::<T_u8_NS>("T_u8_NS")));
    v.push(marked!(L_u8_ORNum, ops::<L_u8_ORNum>("L_u8_ORNum")));
}
fn types13(v: &mut Vec<Ops>) {
    v.push(marked!(Y_Str_Str, ops::<Y_Str_Str>("Y_Str_Str")));
    v.push(marked!(T_Str_Str, ops::<T_Str_Str>("T_Str_Str")));
    v.push(marked!(L_Str_Opt, ops::<L_Str_Opt>("L_Str_Opt")));
    v.push(marked!(Y_Str_ONum, ops::<Y_Str_ONum>("Y_Str_ONum")));
    v.push(marked!(T_Str_ONum, ops::<T_Str_ONum>("T_Str_ONum")));
    v.push(marked!(L_Str_OVec, ops::<L_Str_OVec>("L_Str_OVec")));
    v.push(marked!(Y_Str_RText, ops::<Y_Str_RText>("Y_Str_RText")));
    v.push(marked!(T_Str_RText, ops::<T_Str_RText>("T_Str_RText")));
    v.push(marked!(L_Str_RNum, ops::<L_Str_RNum>("L_Str_RNum")));
    v.push(marked!(Y_Str_With, ops::<Y_Str_With>("Y_Str_With")));
    v.push(marked!(T_Str_With, ops::<T_Str_With>("T_Str_With")));
    v.push(marked!(L_Str_OWith, ops::<L_Str_OWith>("L_Str_OWith")));
    v.push(marked!(Y_Str_De, ops::<Y_Str_De>("Y_Str_De")));
    v.push(marked!(T_Str_De, ops::<T_Str_De>("T_Str_De")));
    v.push(marked!(L_Str_Val, ops::<L_Str_Val>("L_Str_Val")));
    v.push(marked!(Y_Str_ONS, ops::<Y_Str_ONS>("Y_Str_ONS")));
    v.push(marked!(T_Str_ONS, ops::<T_Str_ONS>("T_Str_ONS")));
    v.push(marked!(L_Str_EN, ops::<L_Str_EN>("L_Str_EN")));
    v.push(marked!(L_Opt_Str, ops::<L_Opt_Str>("L_Opt_Str")));
    v.push(marked!(Y_Opt_Opt, ops::<Y_Opt_Opt>("Y_Opt_Opt")));
    v.push(marked!(T_Opt_Opt, ops::<T_Opt_Opt>("T_Opt_Opt")));
    v.push(marked!(L_Opt_ONum, ops::<L_Opt_ONum>("L_Opt_ONum")));
    v.push(marked!(L_Opt_RText, ops::<L_Opt_RText>("L_Opt_RText")));
    v.push(marked!(Y_Opt_RNum, ops::<Y_Opt_RNum>("Y_Opt_RNum")));
    v.push(marked!(T_Opt_RNum, ops::<T_Opt_RNum>("T_Opt_RNum")));
    v.push(marked!(L_Opt_With, ops::<L_Opt_With>("L_Opt_With")));
    v.push(marked!(Y_Opt_OWith, ops::<Y_Opt_OWith>("Y_Opt_OWith")));
    v.push(marked!(T_Opt_OWith, ops::<T_Opt_OWith>("T_Opt_OWith")));
    v.push(marked!(L_Opt_De, ops::<L_Opt_De>("L_Opt_De")));
    v.push(marked!(Y_Opt_Val, ops::<Y_Opt_Val>("Y_Opt_Val")));
    v.push(marked!(T_Opt_Val, ops::<T_Opt_Val>("T_Opt_Val")));
    v.push(marked!(L_Opt_ONS, ops::<L_Opt_ONS>("L_Opt_ONS")));
    v.push(marked!(Y_Opt_EN, ops::<Y_Opt_EN>("Y_Opt_EN")));
    v.push(marked!(T_Opt_EN, ops::<T_Opt_EN>("T_Opt_EN")));
    v.push(marked!(L_OOpt_u8, ops::<L_OOpt_u8>("L_OOpt_u8")));
    v.push(marked!(Y_OOpt_u8, ops::<Y_OOpt_u8>("Y_OOpt_u8")));
    v.push(marked!(T_OOpt_u8, ops::<T_OOpt_u8>("T_OOpt_u8")));
    v.push(marked!(L_OOpt_OOpt, ops::<L_OOpt_OOpt>("L_OOpt_OOpt")));
    v.push(marked!(Y_OOpt_OOpt, ops::<Y_OOpt_OOpt>("Y_OOpt_OOpt")));
    v.push(marked!(T_OOpt_OOpt, ops::<T_OOpt_OOpt>("T_OOpt_OOpt")));
    v.push(marked!(L_OOpt_Skip, ops::<L_OOpt_Skip>("L_OOpt_Skip")));
    v.push(marked!(Y_OOpt_Skip, ops::<Y_OOpt_Skip>("Y_OOpt_Skip")));
    v.push(marked!(T_OOpt_Skip, ops::<T_OOpt_Skip>("T_OOpt_Skip")));
    v.push(marked!(L_OOpt_RLong, ops::<L_OOpt_RLong>("L_OOpt_RLong")));
    v.push(marked!(Y_OOpt_RLong, ops::<Y_OOpt_RLong>("Y_OOpt_RLong")));
    v.push(marked!(T_OOpt_RLong, ops::<T_OOpt_RLong>("T_OOpt_RLong")));
    v.push(marked!(L_OOpt_Ser, ops::<L_OOpt_Ser>("L_OOpt_Ser")));
    v.push(marked!(Y_OOpt_Ser, ops::<Y_OOpt_Ser>("Y_OOpt_Ser")));
    v.push(marked!(T_OOpt_Ser, ops::<T_OOpt_Ser>("T_OOpt_Ser")));
    v.push(marked!(L_OOpt_NS, ops::<L_OOpt_NS>("L_OOpt_NS")));
}
fn types14(v: &mut Vec<Ops>) {
    v.push(marked!(Y_OOpt_NS, ops::<Y_OOpt_NS>("Y_OOpt_NS")));
    v.push(marked!(T_OOpt_NS, ops::<T_OOpt_NS>("T_OOpt_NS")));
    v.push(marked!(L_OOpt_ORNum, ops::<L_OOpt_ORNum>("L_OOpt_ORNum")));
    v.push(marked!(Y_ONum_Str, ops::<Y_ONum_Str>("Y_ONum_Str")));
    v.push(marked!(T_ONum_Str, ops::<T_ONum_Str>("T_ONum_Str")));
    v.push(marked!(L_ONum_Opt, ops::<L_ONum_Opt>("L_ONum_Opt")));
    v.push(marked!(Y_ONum_ONum, ops::<Y_ONum_ONum>("Y_ONum_ONum")));
    v.push(marked!(T_ONum_ONum, ops::<T_ONum_ONum>("T_ONum_ONum")));
    v.push(marked!(L_ONum_OVec, ops::<L_ONum_OVec>("L_ONum_OVec")));
    v.push(marked!(Y_ONum_RText, ops::<Y_ONum_RText>("Y_ONum_RText")));
    v.push(marked!(T_ONum_RText, ops::<T_ONum_RText>("T_ONum_RText")));
    v.push(marked!(L_ONum_RNum, ops::<L_ONum_RNum>("L_ONum_RNum")));
    v.push(marked!(Y_ONum_With, ops::<Y_ONum_With>("Y_ONum_With")));
    v.push(marked!(T_ONum_With, ops::<T_ONum_With>("T_ONum_With")));
    v.push(marked!(L_ONum_OWith, ops::<L_ONum_OWith>("L_ONum_OWith")));
    v.push(marked!(Y_ONum_De, ops::<Y_ONum_De>("Y_ONum_De")));
    v.push(marked!(T_ONum_De, ops::<T_ONum_De>("T_ONum_De")));
    v.push(marked!(L_ONum_Val, ops::<L_ONum_Val>("L_ONum_Val")));
    v.push(marked!(Y_ONum_ONS, ops::<Y_ONum_ONS>("Y_ONum_ONS")));
    v.push(marked!(T_ONum_ONS, ops::<T_ONum_ONS>("T_ONum_ONS")));
    v.push(marked!(L_ONum_EN, ops::<L_ONum_EN>("L_ONum_EN")));
    v.push(marked!(L_OVec_Str, ops::<L_OVec_Str>("L_OVec_Str")));
    v.push(marked!(L_OVec_ONum, ops::<L_OVec_ONum>("L_OVec_ONum")));
    v.push(marked!(L_OVec_RText, ops::<L_OVec_RText>("L_OVec_RText")));
    v.push(marked!(L_OVec_With, ops::<L_OVec_With>("L_OVec_With")));
    v.push(marked!(L_OVec_De, ops::<L_OVec_De>("L_OVec_De")));
    v.push(marked!(L_OVec_ONS, ops::<L_OVec_ONS>("L_OVec_ONS")));
    v.push(marked!(L_Skip_u8, ops::<L_Skip_u8>("L_Skip_u8")));
    v.push(marked!(Y_Skip_u8, ops::<Y_Skip_u8>("Y_Skip_u8")));
    v.push(marked!(T_Skip_u8, ops::<T_Skip_u8>("T_Skip_u8")));
    v.push(marked!(L_Skip_OOpt, ops::<L_Skip_OOpt>("L_Skip_OOpt")));
    v.push(marked!(Y_Skip_OOpt, ops::<Y_Skip_OOpt>("Y_Skip_OOpt")));
    v.push(marked!(T_Skip_OOpt, ops::<T_Skip_OOpt>("T_Skip_OOpt")));
    v.push(marked!(L_Skip_Skip, ops::<L_Skip_Skip>("L_Skip_Skip")));
    v.push(marked!(Y_Skip_Skip, ops::<Y_Skip_Skip>("Y_Skip_Skip")));
    v.push(marked!(T_Skip_Skip, ops::<T_Skip_Skip>("T_Skip_Skip")));
    v.push(marked!(L_Skip_RLong, ops::<L_Skip_RLong>("L_Skip_RLong")));
    v.push(marked!(Y_Skip_RLong, ops::<Y_Skip_RLong>("Y_Skip_RLong")));
    v.push(marked!(T_Skip_RLong, ops::<T_Skip_RLong>("T_Skip_RLong")));
    v.push(marked!(L_Skip_Ser, ops::<L_Skip_Ser>("L_Skip_Ser")));
    v.push(marked!(Y_Skip_Ser, ops::<Y_Skip_Ser>("Y_Skip_Ser")));
    v.push(marked!(T_Skip_Ser, ops::<T_Skip_Ser>("T_Skip_Ser")));
    v.push(marked!(L_Skip_NS, ops::<L_Skip_NS>("L_Skip_NS")));
    v.push(marked!(Y_Skip_NS, ops::<Y_Skip_NS>("Y_Skip_NS")));
    v.push(marked!(T_Skip_NS, ops::<T_Skip_NS>("T_Skip_NS")));
    v.push(marked!(L_Skip_ORNum, ops::<L_Skip_ORNum>("L_Skip_ORNum")));
    v.push(marked!(Y_RText_Str, ops::<Y_RText_Str>("Y_RText_Str")));
    v.push(marked!(T_RText_Str, ops::<T_RText_Str>("T_RText_Str")));
    v.push(marked!(L_RText_Opt, ops::<L_RText_Opt>("L_RText_Opt")));
    v.push(marked!(Y_RText_ONum, ops::<Y_RText_ONum>("Y_RText_ONum")));
}
fn types15(v: &mut Vec<Ops>) {
    v.push(marked!(T_RText_ONum, ops::<T_RText_ONum>("T_RText_ONum")));
    v.push(marked!(L_RText_OVec, ops::<L_RText_OVec>("L_RText_OVec")));
    v.push(marked!(Y_RText_RText, ops::<Y_RText_RText>("Y_RText_RText")));
    v.push(marked!(T_RText_RText, ops::<T_RText_RText>("T_RText_RText")));
    v.push(marked!(L_RText_RNum, ops::<L_RText_RNum>("L_RText_RNum")));
    v.push(marked!(Y_RText_With, ops::<Y_RText_With>("Y_RText_With")));
    v.push(marked!(T_RText_With, ops::<T_RText_With>("T_RText_With")));
    v.push(marked!(L_RText_OWith, ops::<L_RText_OWith>("L_RText_OWith")));
    v.push(marked!(Y_RText_De, ops::<Y_RText_De>("Y_RText_De")));
    v.push(marked!(T_RText_De, ops::<T_RText_De>("T_RText_De")));
    v.push(marked!(L_RText_Val, ops::<L_RText_Val>("L_RText_Val")));
    v.push(marked!(Y_RText_ONS, ops::<Y_RText_ONS>("Y_RText_ONS")));
    v.push(marked!(T_RText_ONS, ops::<T_RText_ONS>("T_RText_ONS")));
    v.push(marked!(L_RText_EN, ops::<L_RText_EN>("L_RText_EN")));
    v.push(marked!(L_RNum_Str, ops::<L_RNum_Str>("L_RNum_Str")));
    v.push(marked!(Y_RNum_Opt, ops::<Y_RNum_Opt>("Y_RNum_Opt")));
    v.push(marked!(T_RNum_Opt, ops::<T_RNum_Opt>("T_RNum_Opt")));
    v.push(marked!(L_RNum_ONum, ops::<L_RNum_ONum>("L_RNum_ONum")));
    v.push(marked!(L_RNum_RText, ops::<L_RNum_RText>("L_RNum_RText")));
    v.push(marked!(Y_RNum_RNum, ops::<Y_RNum_RNum>("Y_RNum_RNum")));
    v.push(marked!(T_RNum_RNum, ops::<T_RNum_RNum>("T_RNum_RNum")));
    v.push(marked!(L_RNum_With, ops::<L_RNum_With>("L_RNum_With")));
    v.push(marked!(Y_RNum_OWith, ops::<Y_RNum_OWith>("Y_RNum_OWith")));
    v.push(marked!(T_RNum_OWith, ops::<T_RNum_OWith>("T_RNum_OWith")));
    v.push(marked!(L_RNum_De, ops::<L_RNum_De>("L_RNum_De")));
    v.push(marked!(Y_RNum_Val, ops::<Y_RNum_Val>("Y_RNum_Val")));
    v.push(marked!(T_RNum_Val, ops::<T_RNum_Val>("T_RNum_Val")));
    v.push(marked!(L_RNum_ONS, ops::<L_RNum_ONS>("L_RNum_ONS")));
    v.push(marked!(Y_RNum_EN, ops::<Y_RNum_EN>("Y_RNum_EN")));
    v.push(marked!(T_RNum_EN, ops::<T_RNum_EN>("T_RNum_EN")));
    v.push(marked!(L_RLong_u8, ops::<L_RLong_u8>("L_RLong_u8")));
    v.push(marked!(Y_RLong_u8, ops::<Y_RLong_u8>("Y_RLong_u8")));
    v.push(marked!(T_RLong_u8, ops::<T_RLong_u8>("T_RLong_u8")));
    v.push(marked!(L_RLong_OOpt, ops::<L_RLong_OOpt>("L_RLong_OOpt")));
    v.push(marked!(Y_RLong_OOpt, ops::<Y_RLong_OOpt>("Y_RLong_OOpt")));
    v.push(marked!(T_RLong_OOpt, ops::<T_RLong_OOpt>("T_RLong_OOpt")));
    v.push(marked!(L_RLong_Skip, ops::<L_RLong_Skip>("L_RLong_Skip")));
    v.push(marked!(Y_RLong_Skip, ops::<Y_RLong_Skip>("Y_RLong_Skip")));
    v.push(marked!(T_RLong_Skip, ops::<T_RLong_Skip>("T_RLong_Skip")));
    v.push(marked!(L_RLong_RLong, ops::<L_RLong_RLong>("L_RLong_RLong")));
    v.push(marked!(Y_RLong_RLong, ops::<Y_RLong_RLong>("Y_RLong_RLong")));
    v.push(marked!(T_RLong_RLong, ops::<T_RLong_RLong>("T_RLong_RLong")));
    v.push(marked!(L_RLong_Ser, ops::<L_RLong_Ser>("L_RLong_Ser")));
    v.push(marked!(Y_RLong_Ser, ops::<Y_RLong_Ser>("Y_RLong_Ser")));
    v.push(marked!(T_RLong_Ser, ops::<T_RLong_Ser>("T_RLong_Ser")));
    v.push(marked!(L_RLong_NS, ops::<L_RLong_NS>("L_RLong_NS")));
    v.push(marked!(Y_RLong_NS, ops::<Y_RLong_NS>("Y_RLong_NS")));
    v.push(marked!(T_RLong_NS, ops::<T_RLong_NS>("T_RLong_NS")));
    v.push(marked!(L_RLong_ORNum, ops::<L_RLong_ORNum>("L_RLong_ORNum")));
    v.push(marked!(Y_With_Str, ops::<Y_With_Str>("Y_With_Str")));
}
fn types16(v: &mut Vec<Ops>) {
    v.push(marked!(T_With_Str, ops::<T_With_Str>("T_With_Str")));
    v.push(marked!(L_With_Opt, ops::<L_With_Opt>("L_With_Opt")));
    v.push(marked!(Y_With_ONum, ops::<Y_With_ONum>("Y_With_ONum")));
    v.push(marked!(T_With_ONum, ops::<T_With_ONum>("T_With_ONum")));
    v.push(marked!(L_With_OVec, ops::<L_With_OVec>("L_With_OVec")));
    v.push(marked!(Y_With_RText, ops::<Y_With_RText>("Y_With_RText")));
    v.push(marked!(T_With_RText, ops::<T_With_RText>("T_With_RText")));
    v.push(marked!(L_With_RNum, ops::<L_With_RNum>("L_With_RNum")));
    v.push(marked!(Y_With_With, ops::<Y_With_With>("Y_With_With")));
    v.push(marked!(T_With_With, ops::<T_With_With>("T_With_With")));
    v.push(marked!(L_With_OWith, ops::<L_With_OWith>("L_With_OWith")));
    v.push(marked!(Y_With_De, ops::<Y_With_De>("Y_With_De")));
    v.push(marked!(T_With_De, ops::<T_With_De>("T_With_De")));
    v.push(marked!(L_With_Val, ops::<L_With_Val>("L_With_Val")));
    v.push(marked!(Y_With_ONS, ops::<Y_With_ONS>("Y_With_ONS")));
    v.push(marked!(T_With_ONS, ops::<T_With_ONS>("T_With_ONS")));
    v.push(marked!(L_With_EN, ops::<L_With_EN>("L_With_EN")));
    v.push(marked!(L_OWith_Str, ops::<L_OWith_Str>("L_OWith_Str")));
    v.push(marked!(Y_OWith_Opt, ops::<Y_OWith_Opt>("Y_OWith_Opt")));
    v.push(marked!(T_OWith_Opt, ops::<T_OWith_Opt>("T_OWith_Opt")));
    v.push(marked!(L_OWith_ONum, ops::<L_OWith_ONum>("L_OWith_ONum")));
    v.push(marked!(L_OWith_RText, ops::<L_OWith_RText>("L_OWith_RText")));
    v.push(marked!(Y_OWith_RNum, ops::<Y_OWith_RNum>("Y_OWith_RNum")));
    v.push(marked!(T_OWith_RNum, ops::<T_OWith_RNum>("T_OWith_RNum")));
    v.push(marked!(L_OWith_With, ops::<L_OWith_With>("L_OWith_With")));
    v.push(marked!(Y_OWith_OWith, ops::<Y_OWith_OWith>("Y_OWith_OWith")));
    v.push(marked!(T_OWith_OWith, ops::<T_OWith_OWith>("T_OWith_OWith")));
    v.push(marked!(L_OWith_De, ops::<L_OWith_De>("L_OWith_De")));
    v.push(marked!(Y_OWith_Val, ops::<Y_OWith_Val>("Y_OWith_Val")));
    v.push(marked!(T_OWith_Val, ops::<T_OWith_Val>("T_OWith_Val")));
    v.push(marked!(L_OWith_ONS, ops::<L_OWith_ONS>("L_OWith_ONS")));
    v.push(marked!(Y_OWith_EN, ops::<Y_OWith_EN>("Y_OWith_EN")));
    v.push(marked!(T_OWith_EN, ops::<T_OWith_EN>("T_OWith_EN")));
    v.push(marked!(L_Ser_u8, ops::<L_Ser_u8>("L_Ser_u8")));
    v.push(marked!(Y_Ser_u8, ops::<Y_Ser_u8>("Y_Ser_u8")));
    v.push(marked!(T_Ser_u8, ops::<T_Ser_u8>("T_Ser_u8")));
    v.push(marked!(L_Ser_OOpt, ops::<L_Ser_OOpt>("L_Ser_OOpt")));
    v.push(marked!(Y_Ser_OOpt, ops::<Y_Ser_OOpt>("Y_Ser_OOpt")));
    v.push(marked!(T_Ser_OOpt, ops::<T_Ser_OOpt>("T_Ser_OOpt")));
    v.push(marked!(L_Ser_Skip, ops::<L_Ser_Skip>("L_Ser_Skip")));
    v.push(marked!(Y_Ser_Skip, ops::<Y_Ser_Skip>("Y_Ser_Skip")));
    v.push(marked!(T_Ser_Skip, ops::<T_Ser_Skip>("T_Ser_Skip")));
    v.push(marked!(L_Ser_RLong, ops::<L_Ser_RLong>("L_Ser_RLong")));
    v.push(marked!(Y_Ser_RLong, ops::<Y_Ser_RLong>("Y_Ser_RLong")));
    v.push(marked!(T_Ser_RLong, ops::<T_Ser_RLong>("T_Ser_RLong")));
    v.push(marked!(L_Ser_Ser, ops::<L_Ser_Ser>("L_Ser_Ser")));
    v.push(marked!(Y_Ser_Ser, ops::<Y_Ser_Ser>("Y_Ser_Ser")));
    v.push(marked!(T_Ser_Ser, ops::<T_Ser_Ser>("T_Ser_Ser")));
    v.push(marked!(L_Ser_NS, ops::<L_Ser_NS>("L_Ser_NS")));
    v.push(marked!(Y_Ser_NS, ops::<Y_Ser_NS>("Y_Ser_NS")));
}
fn types17(v: &mut Vec<Ops>) {
    v.push(marked!(T_Ser_NS, ops::<T_Ser_NS>("T_Ser_NS")));
    v.push(marked!(L_Ser_ORNum, ops::<L_Ser_ORNum>("L_Ser_ORNum")));
    v.push(marked!(Y_De_Str, ops::<Y_De_Str>("Y_De_Str")));
    v.push(marked!(T_De_Str, ops::<T_De_Str>("T_De_Str")));
    v.push(marked!(L_De_Opt, ops::<L_De_Opt>("L_De_Opt")));
    v.push(marked!(Y_De_ONum, ops::<Y_De_ONum>("Y_De_ONum")));
    v.push(marked!(T_De_ONum, ops::<T_De_ONum>("T_De_ONum")));
    v.push(marked!(L_De_OVec, ops::<L_De_OVec>("L_De_OVec")));
    v.push(marked!(Y_De_RText, ops::<Y_De_RText>("Y_De_RText")));
    v.push(marked!(T_De_RText, ops::<T_De_RText>("T_De_RText")));
    v.push(marked!(L_De_RNum, ops::<L_De_RNum>("L_De_RNum")));
    v.push(marked!(Y_De_With, ops::<Y_De_With>("Y_De_With")));
    v.push(marked!(T_De_With, ops::<T_De_With>("T_De_With")));
    v.push(marked!(L_De_OWith, ops::<L_De_OWith>("L_De_OWith")));
    v.push(marked!(Y_De_De, ops::<Y_De_De>("Y_De_De")));
    v.push(marked!(T_De_De, ops::<T_De_De>("T_De_De")));
    v.push(marked!(L_De_Val, ops::<L_De_Val>("L_De_Val")));
    v.push(marked!(Y_De_ONS, ops::<Y_De_ONS>("Y_De_ONS")));
    v.push(marked!(T_De_ONS, ops::<T_De_ONS>("T_De_ONS")));
    v.push(marked!(L_De_EN, ops::<L_De_EN>("L_De_EN")));
    v.push(marked!(L_Val_Str, ops::<L_Val_Str>("L_Val_Str")));
    v.push(marked!(Y_Val_Opt, ops::<Y_Val_Opt>("Y_Val_Opt")));
    v.push(marked!(T_Val_Opt, ops::<T_Val_Opt>("T_Val_Opt")));
    v.push(marked!(L_Val_ONum, ops::<L_Val_ONum>("L_Val_ONum")));
    v.push(marked!(L_Val_RText, ops::<L_Val_RText>("L_Val_RText")));
    v.push(marked!(Y_Val_RNum, ops::<Y_Val_RNum>("Y_Val_RNum")));
    v.push(marked!(T_Val_RNum, ops::<T_Val_RNum>("T_Val_RNum")));
    v.push(marked!(L_Val_With, ops::<L_Val_With>("L_Val_With")));
    v.push(marked!(Y_Val_OWith, ops::<Y_Val_OWith>("Y_Val_OWith")));
    v.push(marked!(T_Val_OWith, ops::<T_Val_OWith>("T_Val_OWith")));
    v.push(marked!(L_Val_De, ops::<L_Val_De>("L_Val_De")));
    v.push(marked!(Y_Val_Val, ops::<Y_Val_Val>("Y_Val_Val")));
    v.push(marked!(T_Val_Val, ops::<T_Val_Val>("T_Val_Val")));
    v.push(marked!(L_Val_ONS, ops::<L_Val_ONS>("L_Val_ONS")));
    v.push(marked!(Y_Val_EN, ops::<Y_Val_EN>("Y_Val_EN")));
    v.push(marked!(T_Val_EN, ops::<T_Val_EN>("T_Val_EN")));
    v.push(marked!(L_NS_u8, ops::<L_NS_u8>("L_NS_u8")));
    v.push(marked!(Y_NS_u8, ops::<Y_NS_u8>("Y_NS_u8")));
    v.push(marked!(T_NS_u8, ops::<T_NS_u8>("T_NS_u8")));
    v.push(marked!(L_NS_OOpt, ops::<L_NS_OOpt>("L_NS_OOpt")));
    v.push(marked!(Y_NS_OOpt, ops::<Y_NS_OOpt>("Y_NS_OOpt")));
    v.push(marked!(T_NS_OOpt, ops::<T_NS_OOpt>("T_NS_OOpt")));
    v.push(marked!(L_NS_Skip, ops::<L_NS_Skip>("L_NS_Skip")));
    v.push(marked!(Y_NS_Skip, ops::<Y_NS_Skip>("Y_NS_Skip")));
    v.push(marked!(T_NS_Skip, ops::<T_NS_Skip>("T_NS_Skip")));
    v.push(marked!(L_NS_RLong, ops::<L_NS_RLong>("L_NS_RLong")));
    v.push(marked!(Y_NS_RLong, ops::<Y_NS_RLong>("Y_NS_RLong")));
    v.push(marked!(T_NS_RLong, ops::<T_NS_RLong>("T_NS_RLong")));
    v.push(marked!(L_NS_Ser, ops::<L_NS_Ser>("L_NS_Ser")));
    v.push(marked!(Y_NS_Ser, ops::<Y_NS_Ser>("Y_NS_Ser")));
}
fn types18(v: &mut Vec<Ops>) {
    v.push(marked!(T_NS_Ser, ops::<T_NS_Ser>("T_NS_Ser")));
    v.push(marked!(L_NS_NS, ops::<L_NS_NS>("L_NS_NS")));
    v.push(marked!(Y_NS_NS, ops::<Y_NS_NS>("Y_NS_NS")));
    v.push(marked!(T_NS_NS, ops::<T_NS_NS>("T_NS_NS")));
    v.push(marked!(L_NS_ORNum, ops::<L_NS_ORNum>("L_NS_ORNum")));
    v.push(marked!(Y_ONS_Str, ops::<Y_ONS_Str>("Y_ONS_Str")));
    v.push(marked!(T_ONS_Str, ops::<T_ONS_Str>("T_ONS_Str")));
    v.push(marked!(L_ONS_Opt, ops::<L_ONS_Opt>("L_ONS_Opt")));
    v.push(marked!(Y_ONS_ONum, ops::<Y_ONS_ONum>("Y_ONS_ONum")));
    v.push(marked!(T_ONS_ONum, ops::<T_ONS_ONum>("T_ONS_ONum")));
    v.push(marked!(L_ONS_OVec, ops::<L_ONS_OVec>("L_ONS_OVec")));
    v.push(marked!(Y_ONS_RText, ops::<Y_ONS_RText>("Y_ONS_RText")));
    v.push(marked!(T_ONS_RText, ops::<T_ONS_RText>("T_ONS_RText")));
    v.push(marked!(L_ONS_RNum, ops::<L_ONS_RNum>("L_ONS_RNum")));
    v.push(marked!(Y_ONS_With, ops::<Y_ONS_With>("Y_ONS_With")));
    v.push(marked!(T_ONS_With, ops::<T_ONS_With>("T_ONS_With")));
    v.push(marked!(L_ONS_OWith, ops::<L_ONS_OWith>("L_ONS_OWith")));
    v.push(marked!(Y_ONS_De, ops::<Y_ONS_De>("Y_ONS_De")));
    v.push(marked!(T_ONS_De, ops::<T_ONS_De>("T_ONS_De")));
    v.push(marked!(L_ONS_Val, ops::<L_ONS_Val>("L_ONS_Val")));
    v.push(marked!(Y_ONS_ONS, ops::<Y_ONS_ONS>("Y_ONS_ONS")));
    v.push(marked!(T_ONS_ONS, ops::<T_ONS_ONS>("T_ONS_ONS")));
    v.push(marked!(L_ONS_EN, ops::<L_ONS_EN>("L_ONS_EN")));
    v.push(marked!(L_EN_Str, ops::<L_EN_Str>("L_EN_Str")));
    v.push(marked!(Y_EN_Opt, ops::<Y_EN_Opt>("Y_EN_Opt")));
    v.push(marked!(T_EN_Opt, ops::<T_EN_Opt>("T_EN_Opt")));
    v.push(marked!(L_EN_ONum, ops::<L_EN_ONum>("L_EN_ONum")));
    v.push(marked!(L_EN_RText, ops::<L_EN_RText>("L_EN_RText")));
    v.push(marked!(Y_EN_RNum, ops::<Y_EN_RNum>("Y_EN_RNum")));
    v.push(marked!(T_EN_RNum, ops::<T_EN_RNum>("T_EN_RNum")));
    v.push(marked!(L_EN_With, ops::<L_EN_With>("L_EN_With")));
    v.push(marked!(Y_EN_OWith, ops::<Y_EN_OWith>("Y_EN_OWith")));
    v.push(marked!(T_EN_OWith, ops::<T_EN_OWith>("T_EN_OWith")));
    v.push(marked!(L_EN_De, ops::<L_EN_De>("L_EN_De")));
    v.push(marked!(Y_EN_Val, ops::<Y_EN_Val>("Y_EN_Val")));
    v.push(marked!(T_EN_Val, ops::<T_EN_Val>("T_EN_Val")));
    v.push(marked!(L_EN_ONS, ops::<L_EN_ONS>("L_EN_ONS")));
    v.push(marked!(Y_EN_EN, ops::<Y_EN_EN>("Y_EN_EN")));
    v.push(marked!(T_EN_EN, ops::<T_EN_EN>("T_EN_EN")));
    v.push(marked!(L_ORNum_u8, ops::<L_ORNum_u8>("L_ORNum_u8")));
    v.push(marked!(L_ORNum_OOpt, ops::<L_ORNum_OOpt>("L_ORNum_OOpt")));
    v.push(marked!(L_ORNum_Skip, ops::<L_ORNum_Skip>("L_ORNum_Skip")));
    v.push(marked!(L_ORNum_RLong, ops::<L_ORNum_RLong>("L_ORNum_RLong")));
    v.push(marked!(L_ORNum_Ser, ops::<L_ORNum_Ser>("L_ORNum_Ser")));
    v.push(marked!(L_ORNum_NS, ops::<L_ORNum_NS>("L_ORNum_NS")));
    v.push(marked!(L_ORNum_ORNum, ops::<L_ORNum_ORNum>("L_ORNum_ORNum")));
    v.push(marked!(S_OVal_u8, ops::<S_OVal_u8>("S_OVal_u8")));
    v.push(marked!(L_u8_OVal, ops::<L_u8_OVal>("L_u8_OVal")));
    v.push(marked!(S_OTup_OVec, ops::<S_OTup_OVec>("S_OTup_OVec")));
    v.push(marked!(L_OVec_OTup, ops::<L_OVec_OTup>("L_OVec_OTup")));
}
fn types19(v: &mut Vec<Ops>) {
    v.push(marked!(S_OTW_With, ops::<S_OTW_With>("S_OTW_With")));
    v.push(marked!(L_With_OTW, ops::<L_With_OTW>("L_With_OTW")));
    v.push(marked!(S_OUN_NS, ops::<S_OUN_NS>("S_OUN_NS")));
    v.push(marked!(L_NS_OUN, ops::<L_NS_OUN>("L_NS_OUN")));
    v.push(marked!(S_UN_Str, ops::<S_UN_Str>("S_UN_Str")));
    v.push(marked!(L_Str_UN, ops::<L_Str_UN>("L_Str_UN")));
    v.push(marked!(S_OAR_Skip, ops::<S_OAR_Skip>("S_OAR_Skip")));
    v.push(marked!(L_Skip_OAR, ops::<L_Skip_OAR>("L_Skip_OAR")));
    v.push(marked!(S_AR_OWith, ops::<S_AR_OWith>("S_AR_OWith")));
    v.push(marked!(L_OWith_AR, ops::<L_OWith_AR>("L_OWith_AR")));
    v.push(marked!(S_ND_ONS, ops::<S_ND_ONS>("S_ND_ONS")));
    v.push(marked!(L_ONS_ND, ops::<L_ONS_ND>("L_ONS_ND")));
    v.push(marked!(S_OND_Opt, ops::<S_OND_Opt>("S_OND_Opt")));
    v.push(marked!(L_Opt_OND, ops::<L_Opt_OND>("L_Opt_OND")));
    v.push(marked!(S_ED_RText, ops::<S_ED_RText>("S_ED_RText")));
    v.push(marked!(L_RText_ED, ops::<L_RText_ED>("L_RText_ED")));
    v.push(marked!(S_OED_Ser, ops::<S_OED_Ser>("S_OED_Ser")));
    v.push(marked!(L_Ser_OED, ops::<L_Ser_OED>("L_Ser_OED")));
    v.push(marked!(S_OEN_EN, ops::<S_OEN_EN>("S_OEN_EN")));
    v.push(marked!(L_EN_OEN, ops::<L_EN_OEN>("L_EN_OEN")));
    v.push(marked!(S_OptEN_OOpt, ops::<S_OptEN_OOpt>("S_OptEN_OOpt")));
    v.push(marked!(L_OOpt_OptEN, ops::<L_OOpt_OptEN>("L_OOpt_OptEN")));
    v.push(marked!(S_Arr_RNum, ops::<S_Arr_RNum>("S_Arr_RNum")));
    v.push(marked!(L_RNum_Arr, ops::<L_RNum_Arr>("L_RNum_Arr")));
    v.push(marked!(S_OArr_De, ops::<S_OArr_De>("S_OArr_De")));
    v.push(marked!(L_De_OArr, ops::<L_De_OArr>("L_De_OArr")));
    v.push(marked!(S_Unit_ORNum, ops::<S_Unit_ORNum>("S_Unit_ORNum")));
    v.push(marked!(L_ORNum_Unit, ops::<L_ORNum_Unit>("L_ORNum_Unit")));
    v.push(marked!(S_OUnit_ONum, ops::<S_OUnit_ONum>("S_OUnit_ONum")));
    v.push(marked!(L_ONum_OUnit, ops::<L_ONum_OUnit>("L_ONum_OUnit")));
    v.push(marked!(S_WithNs_RLong, ops::<S_WithNs_RLong>("S_WithNs_RLong")));
    v.push(marked!(L_RLong_WithNs, ops::<L_RLong_WithNs>("L_RLong_WithNs")));
    v.push(marked!(S_OWithIf_Val, ops::<S_OWithIf_Val>("S_OWithIf_Val")));
    v.push(marked!(L_Val_OWithIf, ops::<L_Val_OWithIf>("L_Val_OWithIf")));
    v.push(marked!(S_OROpt_u8, ops::<S_OROpt_u8>("S_OROpt_u8")));
    v.push(marked!(L_u8_OROpt, ops::<L_u8_OROpt>("L_u8_OROpt")));
    v.push(marked!(S_OStrIf_OVec, ops::<S_OStrIf_OVec>("S_OStrIf_OVec")));
    v.push(marked!(L_OVec_OStrIf, ops::<L_OVec_OStrIf>("L_OVec_OStrIf")));
    v.push(marked!(S_SkipRen_With, ops::<S_SkipRen_With>("S_SkipRen_With")));
    v.push(marked!(L_With_SkipRen, ops::<L_With_SkipRen>("L_With_SkipRen")));
    v.push(marked!(S_SkipOpt_NS, ops::<S_SkipOpt_NS>("S_SkipOpt_NS")));
    v.push(marked!(L_NS_SkipOpt, ops::<L_NS_SkipOpt>("L_NS_SkipOpt")));
    v.push(marked!(S_SkipCod_Str, ops::<S_SkipCod_Str>("S_SkipCod_Str")));
    v.push(marked!(L_Str_SkipCod, ops::<L_Str_SkipCod>("L_Str_SkipCod")));
    v.push(marked!(S_SkipIf_Skip, ops::<S_SkipIf_Skip>("S_SkipIf_Skip")));
    v.push(marked!(L_Skip_SkipIf, ops::<L_Skip_SkipIf>("L_Skip_SkipIf")));
    v.push(marked!(S_IfOnly_OWith, ops::<S_IfOnly_OWith>("S_IfOnly_OWith")));
    v.push(marked!(L_OWith_IfOnly, ops::<L_OWith_IfOnly>("L_OWith_IfOnly")));
    v.push(marked!(S_RWith_ONS, ops::<S_RWith_ONS>("S_RWith_ONS")));
    v.push(marked!(L_ONS_RWith, ops::<L_ONS_RWith>("L_ONS_RWith")));
}
fn types20(v: &mut Vec<Ops>) {
    v.push(marked!(S_OSer_Opt, ops::<S_OSer_Opt>("S_OSer_Opt")));
    v.push(marked!(L_Opt_OSer, ops::<L_Opt_OSer>("L_Opt_OSer")));
    v.push(marked!(S_ODe_RText, ops::<S_ODe_RText>("S_ODe_RText")));
    v.push(marked!(L_RText_ODe, ops::<L_RText_ODe>("L_RText_ODe")));
    v.push(marked!(S_Und_Ser, ops::<S_Und_Ser>("S_Und_Ser")));
    v.push(marked!(L_Ser_Und, ops::<L_Ser_Und>("L_Ser_Und")));
    v.push(marked!(S_OUnd_EN, ops::<S_OUnd_EN>("S_OUnd_EN")));
    v.push(marked!(L_EN_OUnd, ops::<L_EN_OUnd>("L_EN_OUnd")));
    v.push(marked!(S_Map_OOpt, ops::<S_Map_OOpt>("S_Map_OOpt")));
    v.push(marked!(L_OOpt_Map, ops::<L_OOpt_Map>("L_OOpt_Map")));
    v.push(marked!(S_HMap_RNum, ops::<S_HMap_RNum>("S_HMap_RNum")));
    v.push(marked!(L_RNum_HMap, ops::<L_RNum_HMap>("L_RNum_HMap")));
    v.push(marked!(S_HSet_De, ops::<S_HSet_De>("S_HSet_De")));
    v.push(marked!(L_De_HSet, ops::<L_De_HSet>("L_De_HSet")));
    v.push(marked!(S_VecNS_ORNum, ops::<S_VecNS_ORNum>("S_VecNS_ORNum")));
    v.push(marked!(L_ORNum_VecNS, ops::<L_ORNum_VecNS>("L_ORNum_VecNS")));
    v.push(marked!(S_u128_ONum, ops::<S_u128_ONum>("S_u128_ONum")));
    v.push(marked!(L_ONum_u128, ops::<L_ONum_u128>("L_ONum_u128")));
    v.push(marked!(S_char_RLong, ops::<S_char_RLong>("S_char_RLong")));
    v.push(marked!(L_RLong_char, ops::<L_RLong_char>("L_RLong_char")));
    v.push(marked!(S3_0_0, ops::<S3_0_0>("S3_0_0")));
    v.push(marked!(S3_0_1, ops::<S3_0_1>("S3_0_1")));
    v.push(marked!(L3_0_1, ops::<L3_0_1>("L3_0_1")));
    v.push(marked!(S3_0_2, ops::<S3_0_2>("S3_0_2")));
    v.push(marked!(S3_0_3, ops::<S3_0_3>("S3_0_3")));
    v.push(marked!(L3_0_3, ops::<L3_0_3>("L3_0_3")));
    v.push(marked!(Y3_0, ops::<Y3_0>("Y3_0")));
    v.push(marked!(T3_0, ops::<T3_0>("T3_0")));
    v.push(marked!(S3_1_0, ops::<S3_1_0>("S3_1_0")));
    v.push(marked!(S3_1_1, ops::<S3_1_1>("S3_1_1")));
    v.push(marked!(L3_1_1, ops::<L3_1_1>("L3_1_1")));
    v.push(marked!(S3_1_2, ops::<S3_1_2>("S3_1_2")));
    v.push(marked!(S3_1_3, ops::<S3_1_3>("S3_1_3")));
    v.push(marked!(L3_1_3, ops::<L3_1_3>("L3_1_3")));
    v.push(marked!(Y3_1, ops::<Y3_1>("Y3_1")));
    v.push(marked!(T3_1, ops::<T3_1>("T3_1")));
    v.push(marked!(S3_2_0, ops::<S3_2_0>("S3_2_0")));
    v.push(marked!(S3_2_1, ops::<S3_2_1>("S3_2_1")));
    v.push(marked!(L3_2_1, ops::<L3_2_1>("L3_2_1")));
    v.push(marked!(S3_2_2, ops::<S3_2_2>("S3_2_2")));
    v.push(marked!(S3_2_3, ops::<S3_2_3>("S3_2_3")));
    v.push(marked!(L3_2_3, ops::<L3_2_3>("L3_2_3")));
    v.push(marked!(Y3_2, ops::<Y3_2>("Y3_2")));
    v.push(marked!(T3_2, ops::<T3_2>("T3_2")));
    v.push(marked!(S3_3_0, ops::<S3_3_0>("S3_3_0")));
    v.push(marked!(S3_3_1, ops::<S3_3_1>("S3_3_1")));
    v.push(marked!(L3_3_1, ops::<L3_3_1>("L3_3_1")));
    v.push(marked!(S3_3_2, ops::<S3_3_2>("S3_3_2")));
    v.push(marked!(S3_3_3, ops::<S3_3_3>("S3_3_3")));
    v.push(marked!(L3_3_3, ops::<L3_3_3>("L3_3_3")));
}
fn types21(v: &mut Vec<Ops>) {
    v.push(marked!(Y3_3, ops::<Y3_3>("Y3_3")));
    v.push(marked!(T3_3, ops::<T3_3>("T3_3")));
    v.push(marked!(S3_4_0, ops::<S3_4_0>("S3_4_0")));
    v.push(marked!(S3_4_1, ops::<S3_4_1>("S3_4_1")));
    v.push(marked!(L3_4_1, ops::<L3_4_1>("L3_4_1")));
    v.push(marked!(S3_4_2, ops::<S3_4_2>("S3_4_2")));
    v.push(marked!(S3_4_3, ops::<S3_4_3>("S3_4_3")));
    v.push(marked!(L3_4_3, ops::<L3_4_3>("L3_4_3")));
    v.push(marked!(Y3_4, ops::<Y3_4>("Y3_4")));
    v.push(marked!(T3_4, ops::<T3_4>("T3_4")));
    v.push(marked!(S3_5_0, ops::<S3_5_0>("S3_5_0")));
    v.push(marked!(S3_5_1, ops::<S3_5_1>("S3_5_1")));
    v.push(marked!(L3_5_1, ops::<L3_5_1>("L3_5_1")));
    v.push(marked!(S3_5_2, ops::<S3_5_2>("S3_5_2")));
    v.push(marked!(S3_5_3, ops::<S3_5_3>("S3_5_3")));
    v.push(marked!(L3_5_3, ops::<L3_5_3>("L3_5_3")));
    v.push(marked!(S3_6_0, ops::<S3_6_0>("S3_6_0")));
    v.push(marked!(S3_6_1, ops::<S3_6_1>("S3_6_1")));
    v.push(marked!(L3_6_1, ops::<L3_6_1>("L3_6_1")));
    v.push(marked!(S3_6_2, ops::<S3_6_2>("S3_6_2")));
    v.push(marked!(S3_6_3, ops::<S3_6_3>("S3_6_3")));
    v.push(marked!(L3_6_3, ops::<L3_6_3>("L3_6_3")));
    v.push(marked!(Y3_6, ops::<Y3_6>("Y3_6")));
    v.push(marked!(T3_6, ops::<T3_6>("T3_6")));
    v.push(marked!(S3_7_0, ops::<S3_7_0>("S3_7_0")));
    v.push(marked!(S3_7_1, ops::<S3_7_1>("S3_7_1")));
    v.push(marked!(L3_7_1, ops::<L3_7_1>("L3_7_1")));
    v.push(marked!(S3_7_2, ops::<S3_7_2>("S3_7_2")));
    v.push(marked!(S3_7_3, ops::<S3_7_3>("S3_7_3")));
    v.push(marked!(L3_7_3, ops::<L3_7_3>("L3_7_3")));
    v.push(marked!(Y3_7, ops::<Y3_7>("Y3_7")));
    v.push(marked!(T3_7, ops::<T3_7>("T3_7")));
    v.push(marked!(S3_8_0, ops::<S3_8_0>("S3_8_0")));
    v.push(marked!(S3_8_1, ops::<S3_8_1>("S3_8_1")));
    v.push(marked!(L3_8_1, ops::<L3_8_1>("L3_8_1")));
    v.push(marked!(S3_8_2, ops::<S3_8_2>("S3_8_2")));
    v.push(marked!(S3_8_3, ops::<S3_8_3>("S3_8_3")));
    v.push(marked!(L3_8_3, ops::<L3_8_3>("L3_8_3")));
    v.push(marked!(Y3_8, ops::<Y3_8>("Y3_8")));
    v.push(marked!(T3_8, ops::<T3_8>("T3_8")));
    v.push(marked!(S3_9_0, ops::<S3_9_0>("S3_9_0")));
    v.push(marked!(S3_9_1, ops::<S3_9_1>("S3_9_1")));
    v.push(marked!(L3_9_1, ops::<L3_9_1>("L3_9_1")));
    v.push(marked!(S3_9_2, ops::<S3_9_2>("S3_9_2")));
    v.push(marked!(S3_9_3, ops::<S3_9_3>("S3_9_3")));
    v.push(marked!(L3_9_3, ops::<L3_9_3>("L3_9_3")));
    v.push(marked!(Y3_9, ops::<Y3_9>("Y3_9")));
    v.push(marked!(T3_9, ops::<T3_9>("T3_9")));
    v.push(marked!(S3_10_0, ops::<S3_10_0>("S3_10_0")));
    v.push(marked!(S3_10_1, ops::<S3_10_1>("S3_10_1")));
}
fn types22(v: &mut Vec<Ops>) {
    v.push(marked!(L3_10_1, ops::<L3_10_1>("L3_10_1")));
    v.push(marked!(S3_10_2, ops::<S3_10_2>("S3_10_2")));
    v.push(marked!(S3_10_3, ops::<S3_10_3>("S3_10_3")));
    v.push(marked!(L3_10_3, ops::<L3_10_3>("L3_10_3")));
    v.push(marked!(Y3_10, ops::<Y3_10>("Y3_10")));
    v.push(marked!(T3_10, ops::<T3_10>("T3_10")));
    v.push(marked!(S3_11_0, ops::<S3_11_0>("S3_11_0")));
    v.push(marked!(S3_11_1, ops::<S3_11_1>("S3_11_1")));
    v.push(marked!(L3_11_1, ops::<L3_11_1>("L3_11_1")));
    v.push(marked!(S3_11_2, ops::<S3_11_2>("S3_11_2")));
    v.push(marked!(S3_11_3, ops::<S3_11_3>("S3_11_3")));
    v.push(marked!(L3_11_3, ops::<L3_11_3>("L3_11_3")));
    v.push(marked!(Y3_11, ops::<Y3_11>("Y3_11")));
    v.push(marked!(T3_11, ops::<T3_11>("T3_11")));
    v.push(marked!(Swap2, ops::<Swap2>("Swap2")));
    v.push(marked!(Swap2U, ops::<Swap2U>("Swap2U")));
    v.push(marked!(Swap3, ops::<Swap3>("Swap3")));
    v.push(marked!(SkipClash, ops::<SkipClash>("SkipClash")));
    v.push(marked!(NumText, ops::<NumText>("NumText")));
    v.push(marked!(Order1, ops::<Order1>("Order1")));
    v.push(marked!(Order2, ops::<Order2>("Order2")));
    v.push(marked!(Order3, ops::<Order3>("Order3")));
    v.push(marked!(NumDesc, ops::<NumDesc>("NumDesc")));
    v.push(marked!(NameLen23, ops::<NameLen23>("NameLen23")));
    v.push(marked!(NameLen24, ops::<NameLen24>("NameLen24")));
    v.push(marked!(NameLen255, ops::<NameLen255>("NameLen255")));
    v.push(marked!(NameLen256, ops::<NameLen256>("NameLen256")));
    v.push(marked!(Many12, ops::<Many12>("Many12")));
    v.push(marked!(Many30, ops::<Many30>("Many30")));
    v.push(marked!(Many30L, ops::<Many30L>("Many30L")));
    v.push(marked!(Many26A, ops::<Many26A>("Many26A")));
    v.push(marked!(Many26T, ops::<Many26T>("Many26T")));
    v.push(marked!(Many70, ops::<Many70>("Many70")));
    v.push(marked!(Many140, ops::<Many140>("Many140")));
    v.push(marked!(Many260T, ops::<Many260T>("Many260T")));
    v.push(marked!(Many40S, ops::<Many40S>("Many40S")));
    v.push(marked!(Names, ops::<Names>("Names")));
    v.push(marked!(NamesL, ops::<NamesL>("NamesL")));
    v.push(marked!(NamesA, ops::<NamesA>("NamesA")));
    v.push(marked!(NamesW, ops::<NamesW>("NamesW")));
    v.push(marked!(GenNameT<u16>, ops::<GenNameT<u16>>("GenNameT<u16>")));
    v.push(marked!(GenNameV<u16>, ops::<GenNameV<u16>>("GenNameV<u16>")));
    v.push(marked!(GenNameE<u16>, ops::<GenNameE<u16>>("GenNameE<u16>")));
    v.push(marked!(GenNameI<u16>, ops::<GenNameI<u16>>("GenNameI<u16>")));
    v.push(marked!(GenNameValue1<u16>, ops::<GenNameValue1<u16>>("GenNameValue1<u16>")));
    v.push(marked!(GenName__T<u16>, ops::<GenName__T<u16>>("GenName__T<u16>")));
    v.push(marked!(E0, ops::<E0>("E0")));
    v.push(marked!(E0L, ops::<E0L>("E0L")));
    v.push(marked!(E0A, ops::<E0A>("E0A")));
    v.push(marked!(T0, ops::<T0>("T0")));
}
fn types23(v: &mut Vec<Ops>) {
    v.push(marked!(U0, ops::<U0>("U0")));
    v.push(marked!(U0N, ops::<U0N>("U0N")));
    v.push(marked!(E0N, ops::<E0N>("E0N")));
    v.push(marked!(W0, ops::<W0>("W0")));
    v.push(marked!(WN0, ops::<WN0>("WN0")));
    v.push(marked!(SW0, ops::<SW0>("SW0")));
    v.push(marked!(AW0, ops::<AW0>("AW0")));
    v.push(marked!(W1, ops::<W1>("W1")));
    v.push(marked!(WN1, ops::<WN1>("WN1")));
    v.push(marked!(SW1, ops::<SW1>("SW1")));
    v.push(marked!(AW1, ops::<AW1>("AW1")));
    v.push(marked!(W2, ops::<W2>("W2")));
    v.push(marked!(WN2, ops::<WN2>("WN2")));
    v.push(marked!(SW2, ops::<SW2>("SW2")));
    v.push(marked!(AW2, ops::<AW2>("AW2")));
    v.push(marked!(W3, ops::<W3>("W3")));
    v.push(marked!(WN3, ops::<WN3>("WN3")));
    v.push(marked!(SW3, ops::<SW3>("SW3")));
    v.push(marked!(AW3, ops::<AW3>("AW3")));
    v.push(marked!(W4, ops::<W4>("W4")));
    v.push(marked!(WN4, ops::<WN4>("WN4")));
    v.push(marked!(SW4, ops::<SW4>("SW4")));
    v.push(marked!(AW4, ops::<AW4>("AW4")));
    v.push(marked!(W5, ops::<W5>("W5")));
    v.push(marked!(WN5, ops::<WN5>("WN5")));
    v.push(marked!(SW5, ops::<SW5>("SW5")));
    v.push(marked!(AW5, ops::<AW5>("AW5")));
    v.push(marked!(W6, ops::<W6>("W6")));
    v.push(marked!(WN6, ops::<WN6>("WN6")));
    v.push(marked!(SW6, ops::<SW6>("SW6")));
    v.push(marked!(AW6, ops::<AW6>("AW6")));
    v.push(marked!(W7, ops::<W7>("W7")));
    v.push(marked!(WN7, ops::<WN7>("WN7")));
    v.push(marked!(SW7, ops::<SW7>("SW7")));
    v.push(marked!(AW7, ops::<AW7>("AW7")));
    v.push(marked!(W8, ops::<W8>("W8")));
    v.push(marked!(WN8, ops::<WN8>("WN8")));
    v.push(marked!(SW8, ops::<SW8>("SW8")));
    v.push(marked!(AW8, ops::<AW8>("AW8")));
    v.push(marked!(W9, ops::<W9>("W9")));
    v.push(marked!(WN9, ops::<WN9>("WN9")));
    v.push(marked!(SW9, ops::<SW9>("SW9")));
    v.push(marked!(AW9, ops::<AW9>("AW9")));
    v.push(marked!(W10, ops::<W10>("W10")));
    v.push(marked!(WN10, ops::<WN10>("WN10")));
    v.push(marked!(SW10, ops::<SW10>("SW10")));
    v.push(marked!(AW10, ops::<AW10>("AW10")));
    v.push(marked!(W11, ops::<W11>("W11")));
    v.push(marked!(WN11, ops::<WN11>("WN11")));
    v.push(marked!(SW11, ops::<SW11>("SW11")));
}
fn types24(v: &mut Vec<Ops>) {
    v.push(marked!(AW11, ops::<AW11>("AW11")));
    v.push(marked!(W12, ops::<W12>("W12")));
    v.push(marked!(WN12, ops::<WN12>("WN12")));
    v.push(marked!(SW12, ops::<SW12>("SW12")));
    v.push(marked!(AW12, ops::<AW12>("AW12")));
    v.push(marked!(W13, ops::<W13>("W13")));
    v.push(marked!(WN13, ops::<WN13>("WN13")));
    v.push(marked!(SW13, ops::<SW13>("SW13")));
    v.push(marked!(AW13, ops::<AW13>("AW13")));
    v.push(marked!(W14, ops::<W14>("W14")));
    v.push(marked!(WN14, ops::<WN14>("WN14")));
    v.push(marked!(SW14, ops::<SW14>("SW14")));
    v.push(marked!(AW14, ops::<AW14>("AW14")));
    v.push(marked!(W15, ops::<W15>("W15")));
    v.push(marked!(WN15, ops::<WN15>("WN15")));
    v.push(marked!(SW15, ops::<SW15>("SW15")));
    v.push(marked!(AW15, ops::<AW15>("AW15")));
    v.push(marked!(W16, ops::<W16>("W16")));
    v.push(marked!(WN16, ops::<WN16>("WN16")));
    v.push(marked!(SW16, ops::<SW16>("SW16")));
    v.push(marked!(AW16, ops::<AW16>("AW16")));
    v.push(marked!(W17, ops::<W17>("W17")));
    v.push(marked!(WN17, ops::<WN17>("WN17")));
    v.push(marked!(SW17, ops::<SW17>("SW17")));
    v.push(marked!(AW17, ops::<AW17>("AW17")));
    v.push(marked!(W18, ops::<W18>("W18")));
    v.push(marked!(WN18, ops::<WN18>("WN18")));
    v.push(marked!(SW18, ops::<SW18>("SW18")));
    v.push(marked!(AW18, ops::<AW18>("AW18")));
    v.push(marked!(W19, ops::<W19>("W19")));
    v.push(marked!(WN19, ops::<WN19>("WN19")));
    v.push(marked!(SW19, ops::<SW19>("SW19")));
    v.push(marked!(AW19, ops::<AW19>("AW19")));
    v.push(marked!(W20, ops::<W20>("W20")));
    v.push(marked!(WN20, ops::<WN20>("WN20")));
    v.push(marked!(SW20, ops::<SW20>("SW20")));
    v.push(marked!(AW20, ops::<AW20>("AW20")));
    v.push(marked!(W21, ops::<W21>("W21")));
    v.push(marked!(WN21, ops::<WN21>("WN21")));
    v.push(marked!(SW21, ops::<SW21>("SW21")));
    v.push(marked!(AW21, ops::<AW21>("AW21")));
    v.push(marked!(WC0, ops::<WC0>("WC0")));
    v.push(marked!(WCN0, ops::<WCN0>("WCN0")));
    v.push(marked!(NC0, ops::<NC0>("NC0")));
    v.push(marked!(SWC0, ops::<SWC0>("SWC0")));
    v.push(marked!(AWC0, ops::<AWC0>("AWC0")));
    v.push(marked!(WWC0, ops::<WWC0>("WWC0")));
    v.push(marked!(WC1, ops::<WC1>("WC1")));
    v.push(marked!(WCN1, ops::<WCN1>("WCN1")));
    v.push(marked!(NC1, ops::<NC1>("NC1")));
}
fn types25(v: &mut Vec<Ops>) {
    v.push(marked!(SWC1, ops::<SWC1>("SWC1")));
    v.push(marked!(AWC1, ops::<AWC1>("AWC1")));
    v.push(marked!(WWC1, ops::<WWC1>("WWC1")));
    v.push(marked!(WC2, ops::<WC2>("WC2")));
    v.push(marked!(WCN2, ops::<WCN2>("WCN2")));
    v.push(marked!(NC2, ops::<NC2>("NC2")));
    v.push(marked!(SWC2, ops::<SWC2>("SWC2")));
    v.push(marked!(AWC2, ops::<AWC2>("AWC2")));
    v.push(marked!(WWC2, ops::<WWC2>("WWC2")));
    v.push(marked!(WC3, ops::<WC3>("WC3")));
    v.push(marked!(WCN3, ops::<WCN3>("WCN3")));
    v.push(marked!(NC3, ops::<NC3>("NC3")));
    v.push(marked!(SWC3, ops::<SWC3>("SWC3")));
    v.push(marked!(AWC3, ops::<AWC3>("AWC3")));
    v.push(marked!(WWC3, ops::<WWC3>("WWC3")));
    v.push(marked!(WC4, ops::<WC4>("WC4")));
    v.push(marked!(WCN4, ops::<WCN4>("WCN4")));
    v.push(marked!(NC4, ops::<NC4>("NC4")));
    v.push(marked!(SWC4, ops::<SWC4>("SWC4")));
    v.push(marked!(AWC4, ops::<AWC4>("AWC4")));
    v.push(marked!(WWC4, ops::<WWC4>("WWC4")));
    v.push(marked!(WC5, ops::<WC5>("WC5")));
    v.push(marked!(WCN5, ops::<WCN5>("WCN5")));
    v.push(marked!(NC5, ops::<NC5>("NC5")));
    v.push(marked!(SWC5, ops::<SWC5>("SWC5")));
    v.push(marked!(AWC5, ops::<AWC5>("AWC5")));
    v.push(marked!(WWC5, ops::<WWC5>("WWC5")));
    v.push(marked!(N1_0, ops::<N1_0>("N1_0")));
    v.push(marked!(NT_0, ops::<NT_0>("NT_0")));
    v.push(marked!(NA_0, ops::<NA_0>("NA_0")));
    v.push(marked!(NO_0, ops::<NO_0>("NO_0")));
    v.push(marked!(N1_1, ops::<N1_1>("N1_1")));
    v.push(marked!(NT_1, ops::<NT_1>("NT_1")));
    v.push(marked!(NA_1, ops::<NA_1>("NA_1")));
    v.push(marked!(NO_1, ops::<NO_1>("NO_1")));
    v.push(marked!(N1_2, ops::<N1_2>("N1_2")));
    v.push(marked!(NT_2, ops::<NT_2>("NT_2")));
    v.push(marked!(NA_2, ops::<NA_2>("NA_2")));
    v.push(marked!(NO_2, ops::<NO_2>("NO_2")));
    v.push(marked!(N1_3, ops::<N1_3>("N1_3")));
    v.push(marked!(NT_3, ops::<NT_3>("NT_3")));
    v.push(marked!(NA_3, ops::<NA_3>("NA_3")));
    v.push(marked!(NO_3, ops::<NO_3>("NO_3")));
    v.push(marked!(N1_4, ops::<N1_4>("N1_4")));
    v.push(marked!(NT_4, ops::<NT_4>("NT_4")));
    v.push(marked!(NA_4, ops::<NA_4>("NA_4")));
    v.push(marked!(NO_4, ops::<NO_4>("NO_4")));
    v.push(marked!(CD, ops::<CD>("CD")));
    v.push(marked!(CDW, ops::<CDW>("CDW")));
    v.push(marked!(CDT, ops::<CDT>("CDT")));
}
fn types26(v: &mut Vec<Ops>) {
    v.push(marked!(P0, ops::<P0>("P0")));
    v.push(marked!(O0, ops::<O0>("O0")));
    v.push(marked!(A0, ops::<A0>("A0")));
    v.push(marked!(PP0, ops::<PP0>("PP0")));
    v.push(marked!(P1, ops::<P1>("P1")));
    v.push(marked!(O1, ops::<O1>("O1")));
    v.push(marked!(A1, ops::<A1>("A1")));
    v.push(marked!(PP1, ops::<PP1>("PP1")));
    v.push(marked!(P2, ops::<P2>("P2")));
    v.push(marked!(O2, ops::<O2>("O2")));
    v.push(marked!(A2, ops::<A2>("A2")));
    v.push(marked!(PP2, ops::<PP2>("PP2")));
    v.push(marked!(P3, ops::<P3>("P3")));
    v.push(marked!(O3, ops::<O3>("O3")));
    v.push(marked!(A3, ops::<A3>("A3")));
    v.push(marked!(PP3, ops::<PP3>("PP3")));
    v.push(marked!(P4, ops::<P4>("P4")));
    v.push(marked!(O4, ops::<O4>("O4")));
    v.push(marked!(A4, ops::<A4>("A4")));
    v.push(marked!(PP4, ops::<PP4>("PP4")));
    v.push(marked!(P5, ops::<P5>("P5")));
    v.push(marked!(O5, ops::<O5>("O5")));
    v.push(marked!(A5, ops::<A5>("A5")));
    v.push(marked!(PP5, ops::<PP5>("PP5")));
    v.push(marked!(P6, ops::<P6>("P6")));
    v.push(marked!(O6, ops::<O6>("O6")));
    v.push(marked!(A6, ops::<A6>("A6")));
    v.push(marked!(PP6, ops::<PP6>("PP6")));
    v.push(marked!(P7, ops::<P7>("P7")));
    v.push(marked!(O7, ops::<O7>("O7")));
    v.push(marked!(A7, ops::<A7>("A7")));
    v.push(marked!(PP7, ops::<PP7>("PP7")));
    v.push(marked!(P8, ops::<P8>("P8")));
    v.push(marked!(O8, ops::<O8>("O8")));
    v.push(marked!(A8, ops::<A8>("A8")));
    v.push(marked!(PP8, ops::<PP8>("PP8")));
    v.push(marked!(P9, ops::<P9>("P9")));
    v.push(marked!(O9, ops::<O9>("O9")));
    v.push(marked!(A9, ops::<A9>("A9")));
    v.push(marked!(PP9, ops::<PP9>("PP9")));
    v.push(marked!(P10, ops::<P10>("P10")));
    v.push(marked!(O10, ops::<O10>("O10")));
    v.push(marked!(A10, ops::<A10>("A10")));
    v.push(marked!(PP10, ops::<PP10>("PP10")));
    v.push(marked!(P11, ops::<P11>("P11")));
    v.push(marked!(O11, ops::<O11>("O11")));
    v.push(marked!(A11, ops::<A11>("A11")));
    v.push(marked!(PP11, ops::<PP11>("PP11")));
    v.push(marked!(P12, ops::<P12>("P12")));
    v.push(marked!(O12, ops::<O12>("O12")));
}
fn types27(v: &mut Vec<Ops>) {
    v.push(marked!(A12, ops::<A12>("A12")));
    v.push(marked!(PP12, ops::<PP12>("PP12")));
    v.push(marked!(P13, ops::<P13>("P13")));
    v.push(marked!(O13, ops::<O13>("O13")));
    v.push(marked!(A13, ops::<A13>("A13")));
    v.push(marked!(PP13, ops::<PP13>("PP13")));
    v.push(marked!(P14, ops::<P14>("P14")));
    v.push(marked!(O14, ops::<O14>("O14")));
    v.push(marked!(A14, ops::<A14>("A14")));
    v.push(marked!(PP14, ops::<PP14>("PP14")));
    v.push(marked!(P15, ops::<P15>("P15")));
    v.push(marked!(O15, ops::<O15>("O15")));
    v.push(marked!(A15, ops::<A15>("A15")));
    v.push(marked!(PP15, ops::<PP15>("PP15")));
    v.push(marked!(P16, ops::<P16>("P16")));
    v.push(marked!(O16, ops::<O16>("O16")));
    v.push(marked!(A16, ops::<A16>("A16")));
    v.push(marked!(PP16, ops::<PP16>("PP16")));
    v.push(marked!(P17, ops::<P17>("P17")));
    v.push(marked!(O17, ops::<O17>("O17")));
    v.push(marked!(A17, ops::<A17>("A17")));
    v.push(marked!(PP17, ops::<PP17>("PP17")));
    v.push(marked!(P18, ops::<P18>("P18")));
    v.push(marked!(O18, ops::<O18>("O18")));
    v.push(marked!(A18, ops::<A18>("A18")));
    v.push(marked!(PP18, ops::<PP18>("PP18")));
    v.push(marked!(P19, ops::<P19>("P19")));
    v.push(marked!(O19, ops::<O19>("O19")));
    v.push(marked!(A19, ops::<A19>("A19")));
    v.push(marked!(PP19, ops::<PP19>("PP19")));
    v.push(marked!(P20, ops::<P20>("P20")));
    v.push(marked!(O20, ops::<O20>("O20")));
    v.push(marked!(A20, ops::<A20>("A20")));
    v.push(marked!(PP20, ops::<PP20>("PP20")));
    v.push(marked!(P21, ops::<P21>("P21")));
    v.push(marked!(O21, ops::<O21>("O21")));
    v.push(marked!(A21, ops::<A21>("A21")));
    v.push(marked!(PP21, ops::<PP21>("PP21")));
    v.push(marked!(P22, ops::<P22>("P22")));
    v.push(marked!(O22, ops::<O22>("O22")));
    v.push(marked!(A22, ops::<A22>("A22")));
    v.push(marked!(PP22, ops::<PP22>("PP22")));
    v.push(marked!(P23, ops::<P23>("P23")));
    v.push(marked!(O23, ops::<O23>("O23")));
    v.push(marked!(A23, ops::<A23>("A23")));
    v.push(marked!(PP23, ops::<PP23>("PP23")));
    v.push(marked!(P24, ops::<P24>("P24")));
    v.push(marked!(O24, ops::<O24>("O24")));
    v.push(marked!(A24, ops::<A24>("A24")));
    v.push(marked!(PP24, ops::<PP24>("PP24")));
}
fn types28(v: &mut Vec<Ops>) {
    v.push(marked!(P25, ops::<P25>("P25")));
    v.push(marked!(O25, ops::<O25>("O25")));
    v.push(marked!(A25, ops::<A25>("A25")));
    v.push(marked!(PP25, ops::<PP25>("PP25")));
    v.push(marked!(P26, ops::<P26>("P26")));
    v.push(marked!(O26, ops::<O26>("O26")));
    v.push(marked!(A26, ops::<A26>("A26")));
    v.push(marked!(PP26, ops::<PP26>("PP26")));
    v.push(marked!(P27, ops::<P27>("P27")));
    v.push(marked!(O27, ops::<O27>("O27")));
    v.push(marked!(A27, ops::<A27>("A27")));
    v.push(marked!(PP27, ops::<PP27>("PP27")));
    v.push(marked!(P28, ops::<P28>("P28")));
    v.push(marked!(O28, ops::<O28>("O28")));
    v.push(marked!(A28, ops::<A28>("A28")));
    v.push(marked!(PP28, ops::<PP28>("PP28")));
    v.push(marked!(P29, ops::<P29>("P29")));
    v.push(marked!(O29, ops::<O29>("O29")));
    v.push(marked!(A29, ops::<A29>("A29")));
    v.push(marked!(PP29, ops::<PP29>("PP29")));
    v.push(marked!(P30, ops::<P30>("P30")));
    v.push(marked!(O30, ops::<O30>("O30")));
    v.push(marked!(A30, ops::<A30>("A30")));
    v.push(marked!(PP30, ops::<PP30>("PP30")));
    v.push(marked!(P31, ops::<P31>("P31")));
    v.push(marked!(O31, ops::<O31>("O31")));
    v.push(marked!(A31, ops::<A31>("A31")));
    v.push(marked!(PP31, ops::<PP31>("PP31")));
    v.push(marked!(P32, ops::<P32>("P32")));
    v.push(marked!(O32, ops::<O32>("O32")));
    v.push(marked!(A32, ops::<A32>("A32")));
    v.push(marked!(PP32, ops::<PP32>("PP32")));
    v.push(marked!(P33, ops::<P33>("P33")));
    v.push(marked!(O33, ops::<O33>("O33")));
    v.push(marked!(A33, ops::<A33>("A33")));
    v.push(marked!(PP33, ops::<PP33>("PP33")));
    v.push(marked!(P34, ops::<P34>("P34")));
    v.push(marked!(O34, ops::<O34>("O34")));
    v.push(marked!(A34, ops::<A34>("A34")));
    v.push(marked!(PP34, ops::<PP34>("PP34")));
    v.push(marked!(P35, ops::<P35>("P35")));
    v.push(marked!(O35, ops::<O35>("O35")));
    v.push(marked!(A35, ops::<A35>("A35")));
    v.push(marked!(PP35, ops::<PP35>("PP35")));
    v.push(marked!(P36, ops::<P36>("P36")));
    v.push(marked!(O36, ops::<O36>("O36")));
    v.push(marked!(A36, ops::<A36>("A36")));
    v.push(marked!(PP36, ops::<PP36>("PP36")));
    v.push(marked!(P37, ops::<P37>("P37")));
    v.push(marked!(O37, ops::<O37>("O37")));
}
fn types29(v: &mut Vec<Ops>) {
    v.push(marked!(A37, ops::<A37>("A37")));
    v.push(marked!(PP37, ops::<PP37>("PP37")));
    v.push(marked!(P38, ops::<P38>("P38")));
    v.push(marked!(O38, ops::<O38>("O38")));
    v.push(marked!(A38, ops::<A38>("A38")));
    v.push(marked!(PP38, ops::<PP38>("PP38")));
    v.push(marked!(P39, ops::<P39>("P39")));
    v.push(marked!(O39, ops::<O39>("O39")));
    v.push(marked!(A39, ops::<A39>("A39")));
    v.push(marked!(PP39, ops::<PP39>("PP39")));
    v.push(marked!(P40, ops::<P40>("P40")));
    v.push(marked!(O40, ops::<O40>("O40")));
    v.push(marked!(A40, ops::<A40>("A40")));
    v.push(marked!(PP40, ops::<PP40>("PP40")));
    v.push(marked!(P41, ops::<P41>("P41")));
    v.push(marked!(O41, ops::<O41>("O41")));
    v.push(marked!(A41, ops::<A41>("A41")));
    v.push(marked!(PP41, ops::<PP41>("PP41")));
    v.push(marked!(P42, ops::<P42>("P42")));
    v.push(marked!(O42, ops::<O42>("O42")));
    v.push(marked!(A42, ops::<A42>("A42")));
    v.push(marked!(PP42, ops::<PP42>("PP42")));
    v.push(marked!(P43, ops::<P43>("P43")));
    v.push(marked!(O43, ops::<O43>("O43")));
    v.push(marked!(A43, ops::<A43>("A43")));
    v.push(marked!(PP43, ops::<PP43>("PP43")));
    v.push(marked!(P44, ops::<P44>("P44")));
    v.push(marked!(O44, ops::<O44>("O44")));
    v.push(marked!(A44, ops::<A44>("A44")));
    v.push(marked!(PP44, ops::<PP44>("PP44")));
    v.push(marked!(P45, ops::<P45>("P45")));
    v.push(marked!(O45, ops::<O45>("O45")));
    v.push(marked!(A45, ops::<A45>("A45")));
    v.push(marked!(PP45, ops::<PP45>("PP45")));
    v.push(marked!(P46, ops::<P46>("P46")));
    v.push(marked!(O46, ops::<O46>("O46")));
    v.push(marked!(A46, ops::<A46>("A46")));
    v.push(marked!(PP46, ops::<PP46>("PP46")));
    v.push(marked!(P47, ops::<P47>("P47")));
    v.push(marked!(O47, ops::<O47>("O47")));
    v.push(marked!(A47, ops::<A47>("A47")));
    v.push(marked!(PP47, ops::<PP47>("PP47")));
    v.push(marked!(P48, ops::<P48>("P48")));
    v.push(marked!(O48, ops::<O48>("O48")));
    v.push(marked!(A48, ops::<A48>("A48")));
    v.push(marked!(PP48, ops::<PP48>("PP48")));
    v.push(marked!(P49, ops::<P49>("P49")));
    v.push(marked!(O49, ops::<O49>("O49")));
    v.push(marked!(A49, ops::<A49>("A49")));
    v.push(marked!(PP49, ops::<PP49>("PP49")));
}
fn types30(v: &mut Vec<Ops>) {
    v.push(marked!(P50, ops::<P50>("P50")));
    v.push(marked!(O50, ops::<O50>("O50")));
    v.push(marked!(A50, ops::<A50>("A50")));
    v.push(marked!(PP50, ops::<PP50>("PP50")));
    v.push(marked!(P51, ops::<P51>("P51")));
    v.push(marked!(O51, ops::<O51>("O51")));
    v.push(marked!(A51, ops::<A51>("A51")));
    v.push(marked!(PP51, ops::<PP51>("PP51")));
    v.push(marked!(G<u8>, ops::<G<u8>>("G<u8>")));
    v.push(marked!(G<NS>, ops::<G<NS>>("G<NS>")));
    v.push(marked!(G<Option<String>>, ops::<G<Option<String>>>("G<Option<String>>")));
    v.push(marked!(GW<u64>, ops::<GW<u64>>("GW<u64>")));
    v.push(marked!(GW<NS>, ops::<GW<NS>>("GW<NS>")));
    v.push(marked!(GW<G<EN>>, ops::<GW<G<EN>>>("GW<G<EN>>")));
    v.push(marked!(G<GW<i8>>, ops::<G<GW<i8>>>("G<GW<i8>>")));
    v.push(marked!(GI<String>, ops::<GI<String>>("GI<String>")));
    v.push(marked!(GI<G<u16>>, ops::<GI<G<u16>>>("GI<G<u16>>")));
    v.push(marked!(Vec<G<u16>>, ops::<Vec<G<u16>>>("Vec<G<u16>>")));
    v.push(marked!(G2<String, NS>, ops::<G2<String, NS>>("G2<String, NS>")));
    v.push(marked!(G2<G2<u8, u8>>, ops::<G2<G2<u8, u8>>>("G2<G2<u8, u8>>")));
    v.push(marked!(G2<CG<1>, CG<0>>, ops::<G2<CG<1>, CG<0>>>("G2<CG<1>, CG<0>>")));
    v.push(marked!(GA<std::vec::IntoIter<u8>>, ops::<GA<std::vec::IntoIter<u8>>>("GA<std::vec::IntoIter<u8>>")));
    v.push(marked!(GA<std::vec::IntoIter<EN>>, ops::<GA<std::vec::IntoIter<EN>>>("GA<std::vec::IntoIter<EN>>")));
    v.push(marked!(GP<std::fs::File>, ops::<GP<std::fs::File>>("GP<std::fs::File>")));
    v.push(marked!(GPT<u8>, ops::<GPT<u8>>("GPT<u8>")));
    v.push(marked!(CG<0>, ops::<CG<0>>("CG<0>")));
    v.push(marked!(CG<1>, ops::<CG<1>>("CG<1>")));
    v.push(marked!(CG<3>, ops::<CG<3>>("CG<3>")));
    v.push(marked!(CG<24>, ops::<CG<24>>("CG<24>")));
    v.push(marked!(CT<0, 0>, ops::<CT<0, 0>>("CT<0, 0>")));
    v.push(marked!(CT<2, 1>, ops::<CT<2, 1>>("CT<2, 1>")));
    v.push(marked!(CW<u8, 2>, ops::<CW<u8, 2>>("CW<u8, 2>")));
    v.push(marked!(CW<NS, 2>, ops::<CW<NS, 2>>("CW<NS, 2>")));
    v.push(marked!(CW<CG<1>, 1>, ops::<CW<CG<1>, 1>>("CW<CG<1>, 1>")));
    v.push(marked!(LN<'static>, enc_ops::<LN<'static>>("LN<'static>")));
    v.push(marked!(LA<'static>, enc_ops::<LA<'static>>("LA<'static>")));
    v.push(marked!(LT<'static>, enc_ops::<LT<'static>>("LT<'static>")));
    v.push(marked!(LS<'static>, enc_ops::<LS<'static>>("LS<'static>")));
    v.push(marked!(LI<'static>, enc_ops::<LI<'static>>("LI<'static>")));
    v.push(marked!(R1, ops::<R1>("R1")));
    v.push(marked!(R2, ops::<R2>("R2")));
    v.push(marked!(R3, ops::<R3>("R3")));
    v.push(marked!(R4, ops::<R4>("R4")));
    v.push(marked!(R5, ops::<R5>("R5")));
    v.push(marked!(R6, ops::<R6>("R6")));
    v.push(marked!(R7, ops::<R7>("R7")));
    v.push(marked!(R8, ops::<R8>("R8")));
    v.push(marked!(R9, ops::<R9>("R9")));
    v.push(marked!(R10, ops::<R10>("R10")));
    v.push(marked!(ER, ops::<ER>("ER")));
}
fn types31(v: &mut Vec<Ops>) {
    v.push(marked!(R11, ops::<R11>("R11")));
    v.push(marked!(Deep1, ops::<Deep1>("Deep1")));
    v.push(marked!(Deep2, ops::<Deep2>("Deep2")));
    v.push(marked!(Rec, ops::<Rec>("Rec")));
}
